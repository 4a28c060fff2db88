//! Executable reference model of every primitive in crypto-pure, written from the standards
//! (FIPS 180-4, RFC 2104, RFC 5869, FIPS 197, SP 800-38D, RFC 8439, RFC 7748, RFC 8032).
//! It shares no code and no constant tables with crypto-pure: SHA-2 constants are derived from
//! primes, the AES S-box from GF(2^8) inversion, curve constants from their definitions; field
//! arithmetic uses 64-bit limbs where the code under test uses 25.5-bit limbs or bytes.
pub mod aes;
pub mod chacha;
pub mod ed;
pub mod fp;
pub mod gcm;
pub mod kat;
pub mod mac;
pub mod poly;
pub mod sha2;
pub mod x25519;
