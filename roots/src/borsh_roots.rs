//! Byte streams of which only the transfers are known.
use borsh::io::{Read, Write};
use borsh::{BorshDeserialize, BorshSerialize};
use rabe_bn::arith::{U256, U512};
use rabe_bn::{Fr, Gt, G1, G2};

extern "C" {
    fn tok_write(s: *mut Stream, p: *const u8, n: usize);
    fn tok_read(s: *mut Stream, p: *mut u8, n: usize) -> bool;
}
pub struct Stream(pub u64);
impl Write for Stream {
    fn write(&mut self, b: &[u8]) -> borsh::io::Result<usize> {
        unsafe { tok_write(self, b.as_ptr(), b.len()) };
        Ok(b.len())
    }
    fn write_all(&mut self, b: &[u8]) -> borsh::io::Result<()> {
        unsafe { tok_write(self, b.as_ptr(), b.len()) };
        Ok(())
    }
    fn flush(&mut self) -> borsh::io::Result<()> { Ok(()) }
}
impl Read for Stream {
    fn read(&mut self, b: &mut [u8]) -> borsh::io::Result<usize> {
        if unsafe { tok_read(self, b.as_mut_ptr(), b.len()) } { Ok(b.len()) } else { Ok(0) }
    }
    fn read_exact(&mut self, b: &mut [u8]) -> borsh::io::Result<()> {
        if unsafe { tok_read(self, b.as_mut_ptr(), b.len()) } { Ok(()) } else { Err(borsh::io::ErrorKind::UnexpectedEof.into()) }
    }
}
macro_rules! borsh_roots {
    ($($t:ty, $s:ident, $d:ident;)*) => { $(
        pub fn $s(a: &$t, s: &mut Stream) -> bool { a.serialize(s).is_ok() }
        pub fn $d(s: &mut Stream) -> Option<$t> { <$t as BorshDeserialize>::deserialize_reader(s).ok() }
    )* };
}
borsh_roots! {
    Fr, root_ser_fr, root_de_fr;
    G1, root_ser_g1, root_de_g1;
    G2, root_ser_g2, root_de_g2;
    Gt, root_ser_gt, root_de_gt;
    U256, root_ser_u256, root_de_u256;
    U512, root_ser_u512, root_de_u512;
}
