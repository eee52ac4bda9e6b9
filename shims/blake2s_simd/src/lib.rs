//! Stand-in for blake2s_simd 0.5: builds the 32-byte parameter block of BLAKE2s with the same range
//! checks (asserts) as the real crate and leaves the compression itself uninterpreted: the digest is
//! an arbitrary function of (parameter block, last-node flag, key, message).
use symapi::Uf;
pub const OUTBYTES: usize = 32;
pub const KEYBYTES: usize = 32;
pub const SALTBYTES: usize = 8;
pub const PERSONALBYTES: usize = 8;
pub const BLOCKBYTES: usize = 64;

#[derive(Clone)]
pub struct Params {
    hash_length: u8,
    key_length: u8,
    key: [u8; 32],
    salt: [u8; 8],
    personal: [u8; 8],
    fanout: u8,
    max_depth: u8,
    max_leaf_length: u32,
    node_offset: u64,
    node_depth: u8,
    inner_hash_length: u8,
    last_node: bool,
}
impl Default for Params {
    fn default() -> Self {
        Params::new()
    }
}
impl std::fmt::Debug for Params {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("Params")
    }
}
impl Params {
    pub fn new() -> Params {
        Params {
            hash_length: 32,
            key_length: 0,
            key: [0; 32],
            salt: [0; 8],
            personal: [0; 8],
            fanout: 1,
            max_depth: 1,
            max_leaf_length: 0,
            node_offset: 0,
            node_depth: 0,
            inner_hash_length: 0,
            last_node: false,
        }
    }
    pub fn hash_length(&mut self, length: usize) -> &mut Self {
        assert!(1 <= length && length <= OUTBYTES, "Bad hash length: {}", length);
        self.hash_length = length as u8;
        self
    }
    pub fn key(&mut self, key: &[u8]) -> &mut Self {
        assert!(key.len() <= KEYBYTES, "Bad key length: {}", key.len());
        self.key_length = key.len() as u8;
        self.key = [0; 32];
        self.key[..key.len()].copy_from_slice(key);
        self
    }
    pub fn salt(&mut self, salt: &[u8]) -> &mut Self {
        assert!(salt.len() <= SALTBYTES, "Bad salt length: {}", salt.len());
        self.salt = [0; 8];
        self.salt[..salt.len()].copy_from_slice(salt);
        self
    }
    pub fn personal(&mut self, personalization: &[u8]) -> &mut Self {
        assert!(
            personalization.len() <= PERSONALBYTES,
            "Bad personalization length: {}",
            personalization.len()
        );
        self.personal = [0; 8];
        self.personal[..personalization.len()].copy_from_slice(personalization);
        self
    }
    pub fn fanout(&mut self, fanout: u8) -> &mut Self {
        self.fanout = fanout;
        self
    }
    pub fn max_depth(&mut self, depth: u8) -> &mut Self {
        self.max_depth = depth;
        self
    }
    pub fn max_leaf_length(&mut self, length: u32) -> &mut Self {
        self.max_leaf_length = length;
        self
    }
    pub fn node_offset(&mut self, offset: u64) -> &mut Self {
        assert!(offset < (1u64 << 48), "Bad node offset: {}", offset);
        self.node_offset = offset;
        self
    }
    pub fn node_depth(&mut self, depth: u8) -> &mut Self {
        self.node_depth = depth;
        self
    }
    pub fn inner_hash_length(&mut self, length: usize) -> &mut Self {
        assert!(length <= OUTBYTES, "Bad inner hash length: {}", length);
        self.inner_hash_length = length as u8;
        self
    }
    pub fn last_node(&mut self, last_node: bool) -> &mut Self {
        self.last_node = last_node;
        self
    }
    pub fn to_state(&self) -> State {
        State { params: self.clone(), buf: vec![] }
    }
    pub fn hash(&self, input: &[u8]) -> Hash {
        self.to_state().update(input).finalize()
    }
    fn block(&self) -> [u8; 32] {
        let mut b = [0u8; 32];
        b[0] = self.hash_length;
        b[1] = self.key_length;
        b[2] = self.fanout;
        b[3] = self.max_depth;
        b[4..8].copy_from_slice(&self.max_leaf_length.to_le_bytes());
        b[8..14].copy_from_slice(&self.node_offset.to_le_bytes()[..6]);
        b[14] = self.node_depth;
        b[15] = self.inner_hash_length;
        b[16..24].copy_from_slice(&self.salt);
        b[24..32].copy_from_slice(&self.personal);
        b
    }
}

#[derive(Clone)]
pub struct State {
    params: Params,
    buf: Vec<u8>,
}
impl Default for State {
    fn default() -> Self {
        State::new()
    }
}
impl std::fmt::Debug for State {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("State")
    }
}
impl State {
    pub fn new() -> State {
        Params::new().to_state()
    }
    pub fn update(&mut self, input: &[u8]) -> &mut Self {
        self.buf.extend_from_slice(input);
        self
    }
    pub fn set_last_node(&mut self, last_node: bool) -> &mut Self {
        self.params.last_node = last_node;
        self
    }
    pub fn count(&self) -> u64 {
        self.buf.len() as u64
    }
    pub fn finalize(&self) -> Hash {
        let full = digest(&self.params.block(), self.params.last_node, &self.params.key, &self.buf);
        let mut bytes = [0u8; 32];
        let n = self.params.hash_length as usize;
        bytes[..n].copy_from_slice(&full[..n]);
        Hash { bytes, len: self.params.hash_length }
    }
}
impl std::io::Write for State {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        self.update(buf);
        Ok(buf.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// the uninterpreted function
pub fn digest(block: &[u8; 32], last_node: bool, key: &[u8; 32], msg: &[u8]) -> Vec<u8> {
    let u = Uf::new().bytes(block).u64(last_node as u64);
    let u = if block[1] != 0 { u.bytes(key) } else { u };
    u.u64(msg.len() as u64).bytes(msg).to_bytes("blake2s", 32)
}

#[derive(Clone, Copy)]
pub struct Hash {
    bytes: [u8; 32],
    len: u8,
}
impl Hash {
    pub fn as_bytes(&self) -> &[u8] {
        &self.bytes[..self.len as usize]
    }
    pub fn as_array(&self) -> &[u8; 32] {
        debug_assert_eq!(self.len as usize, OUTBYTES);
        &self.bytes
    }
    pub fn to_hex(&self) -> String {
        let mut s = String::new();
        for b in self.as_bytes() {
            for d in &[b >> 4, b & 15] {
                s.push(b"0123456789abcdef"[*d as usize] as char);
            }
        }
        s
    }
}
impl AsRef<[u8]> for Hash {
    fn as_ref(&self) -> &[u8] {
        self.as_bytes()
    }
}
impl PartialEq for Hash {
    fn eq(&self, o: &Hash) -> bool {
        symapi::eq_bytes(self.as_bytes(), o.as_bytes())
    }
}
impl Eq for Hash {}
impl PartialEq<[u8]> for Hash {
    fn eq(&self, o: &[u8]) -> bool {
        symapi::eq_bytes(self.as_bytes(), o)
    }
}
impl std::fmt::Debug for Hash {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("Hash")
    }
}
pub fn blake2s(input: &[u8]) -> Hash {
    State::new().update(input).finalize()
}
