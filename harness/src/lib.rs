//! Shared machinery of the property checks.
pub mod cont;
pub mod engine;
pub mod guided;
pub mod gen;
pub mod toy;
pub use engine::*;
pub mod nq;

/// Hasher which tells apart the ways the same bytes may be fed to it.
#[derive(Default)]
struct ByCall(u64);
impl std::hash::Hasher for ByCall {
	fn write(&mut self, bytes: &[u8]) {
		self.0 = (self.0 ^ fnv(bytes) ^ (bytes.len() as u64) << 56).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29);
	}
	fn finish(&self) -> u64 {
		self.0
	}
}

/// Hashes of a value: equal values have the same with any hasher.
pub fn hashes<T: std::hash::Hash + ?Sized>(x: &T) -> (u64, u64) {
	use std::hash::Hasher;
	let mut a = std::collections::hash_map::DefaultHasher::new();
	x.hash(&mut a);
	let mut b = ByCall::default();
	x.hash(&mut b);
	(a.finish(), b.finish())
}
