use std::io::{self, Read, Write};
#[derive(Debug)]
pub enum SerializationError {
    NotEnoughSpace,
    InvalidData,
    UnexpectedFlags,
    IoError(io::Error),
}
impl std::error::Error for SerializationError {}
impl From<io::Error> for SerializationError {
    fn from(e: io::Error) -> Self {
        SerializationError::IoError(e)
    }
}
impl std::fmt::Display for SerializationError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("serialization error")
    }
}
pub trait Flags: Default + Clone + Copy + Sized {
    const BIT_SIZE: usize;
    fn u8_bitmask(&self) -> u8;
    fn from_u8(value: u8) -> Option<Self>;
    fn from_u8_remove_flags(value: &mut u8) -> Option<Self> {
        let flags = Self::from_u8(*value);
        if let Some(f) = flags {
            *value &= !f.u8_bitmask();
        }
        flags
    }
}
#[derive(Default, Clone, Copy, PartialEq, Eq)]
pub struct EmptyFlags;
impl Flags for EmptyFlags {
    const BIT_SIZE: usize = 0;
    fn u8_bitmask(&self) -> u8 {
        0
    }
    fn from_u8(value: u8) -> Option<Self> {
        if (value >> 7) == 0 {
            Some(EmptyFlags)
        } else {
            None
        }
    }
}
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum SWFlags {
    Infinity,
    PositiveY,
    NegativeY,
}
impl Default for SWFlags {
    fn default() -> Self {
        SWFlags::NegativeY
    }
}
impl SWFlags {
    pub fn infinity() -> Self {
        SWFlags::Infinity
    }
    pub fn from_y_sign(p: bool) -> Self {
        if p {
            SWFlags::PositiveY
        } else {
            SWFlags::NegativeY
        }
    }
    pub fn is_infinity(&self) -> bool {
        matches!(self, SWFlags::Infinity)
    }
    pub fn is_positive(&self) -> Option<bool> {
        match self {
            SWFlags::Infinity => None,
            SWFlags::PositiveY => Some(true),
            SWFlags::NegativeY => Some(false),
        }
    }
}
impl Flags for SWFlags {
    const BIT_SIZE: usize = 2;
    fn u8_bitmask(&self) -> u8 {
        match self {
            SWFlags::Infinity => 1 << 6,
            SWFlags::PositiveY => 1 << 7,
            SWFlags::NegativeY => 0,
        }
    }
    fn from_u8(value: u8) -> Option<Self> {
        match ((value >> 7) & 1 == 1, (value >> 6) & 1 == 1) {
            (true, true) => None,
            (false, true) => Some(SWFlags::Infinity),
            (true, false) => Some(SWFlags::PositiveY),
            (false, false) => Some(SWFlags::NegativeY),
        }
    }
}
pub trait CanonicalSerialize {
    fn serialize<W: Write>(&self, writer: W) -> Result<(), SerializationError>;
    fn serialized_size(&self) -> usize;
    fn serialize_uncompressed<W: Write>(&self, writer: W) -> Result<(), SerializationError> {
        self.serialize(writer)
    }
    fn serialize_unchecked<W: Write>(&self, writer: W) -> Result<(), SerializationError> {
        self.serialize_uncompressed(writer)
    }
    fn uncompressed_size(&self) -> usize {
        self.serialized_size()
    }
}
pub trait CanonicalDeserialize: Sized {
    fn deserialize<R: Read>(reader: R) -> Result<Self, SerializationError>;
    fn deserialize_uncompressed<R: Read>(reader: R) -> Result<Self, SerializationError> {
        Self::deserialize(reader)
    }
    fn deserialize_unchecked<R: Read>(reader: R) -> Result<Self, SerializationError> {
        Self::deserialize_uncompressed(reader)
    }
}
pub trait CanonicalSerializeWithFlags: CanonicalSerialize {
    fn serialize_with_flags<W: Write, F: Flags>(&self, writer: W, flags: F) -> Result<(), SerializationError>;
    fn serialized_size_with_flags<F: Flags>(&self) -> usize;
}
pub trait CanonicalDeserializeWithFlags: Sized {
    fn deserialize_with_flags<R: Read, F: Flags>(reader: R) -> Result<(Self, F), SerializationError>;
}
pub trait ConstantSerializedSize: CanonicalSerialize {
    const SERIALIZED_SIZE: usize;
    const UNCOMPRESSED_SIZE: usize;
}
pub fn buffer_bit_byte_size(modulus_bits: usize) -> (usize, usize) {
    let b = (modulus_bits + 7) / 8;
    (b * 8, b)
}
macro_rules! ints {
    ($($t:ident)*) => {$(
        impl CanonicalSerialize for $t {
            fn serialize<W: Write>(&self, mut w: W) -> Result<(), SerializationError> {
                Ok(w.write_all(&self.to_le_bytes())?)
            }
            fn serialized_size(&self) -> usize {
                std::mem::size_of::<$t>()
            }
        }
        impl CanonicalDeserialize for $t {
            fn deserialize<R: Read>(mut r: R) -> Result<Self, SerializationError> {
                let mut b = [0u8; std::mem::size_of::<$t>()];
                r.read_exact(&mut b)?;
                Ok($t::from_le_bytes(b))
            }
        }
    )*};
}
ints!(u8 u16 u32 u64);
impl CanonicalSerialize for usize {
    fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> {
        (*self as u64).serialize(w)
    }
    fn serialized_size(&self) -> usize {
        8
    }
}
impl CanonicalDeserialize for usize {
    fn deserialize<R: Read>(r: R) -> Result<Self, SerializationError> {
        Ok(u64::deserialize(r)? as usize)
    }
}
impl CanonicalSerialize for bool {
    fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> {
        (*self as u8).serialize(w)
    }
    fn serialized_size(&self) -> usize {
        1
    }
}
impl CanonicalDeserialize for bool {
    fn deserialize<R: Read>(r: R) -> Result<Self, SerializationError> {
        match u8::deserialize(r)? {
            0 => Ok(false),
            1 => Ok(true),
            _ => Err(SerializationError::InvalidData),
        }
    }
}
impl<T: CanonicalSerialize> CanonicalSerialize for [T] {
    fn serialize<W: Write>(&self, mut w: W) -> Result<(), SerializationError> {
        (self.len() as u64).serialize(&mut w)?;
        for t in self {
            t.serialize(&mut w)?;
        }
        Ok(())
    }
    fn serialize_uncompressed<W: Write>(&self, mut w: W) -> Result<(), SerializationError> {
        (self.len() as u64).serialize(&mut w)?;
        for t in self {
            t.serialize_uncompressed(&mut w)?;
        }
        Ok(())
    }
    fn serialized_size(&self) -> usize {
        8 + self.iter().map(|t| t.serialized_size()).sum::<usize>()
    }
    fn uncompressed_size(&self) -> usize {
        8 + self.iter().map(|t| t.uncompressed_size()).sum::<usize>()
    }
}
impl<T: CanonicalSerialize> CanonicalSerialize for Vec<T> {
    fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> {
        self.as_slice().serialize(w)
    }
    fn serialize_uncompressed<W: Write>(&self, w: W) -> Result<(), SerializationError> {
        self.as_slice().serialize_uncompressed(w)
    }
    fn serialized_size(&self) -> usize {
        self.as_slice().serialized_size()
    }
    fn uncompressed_size(&self) -> usize {
        self.as_slice().uncompressed_size()
    }
}
impl<T: CanonicalDeserialize> CanonicalDeserialize for Vec<T> {
    fn deserialize<R: Read>(mut r: R) -> Result<Self, SerializationError> {
        let n = u64::deserialize(&mut r)?;
        (0..n).map(|_| T::deserialize(&mut r)).collect()
    }
}
