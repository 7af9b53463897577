//! secp256k1 ECDSA (variable time; for simulation only).
use crate::sha2_256;
use std::sync::OnceLock;

type L = [u64; 4];
const P: L = [0xFFFFFFFEFFFFFC2F, !0, !0, !0];
const N: L = [0xBFD25E8CD0364141, 0xBAAEDCE6AF48A03B, 0xFFFFFFFFFFFFFFFE, !0];
const PC: [u64; 4] = [0x1000003D1, 0, 0, 0];
const NC: [u64; 4] = [0x402DA1732FC9BEBF, 0x4551231950B75FC4, 1, 0];

fn lt(a: &L, b: &L) -> bool {
	for i in (0..4).rev() {
		if a[i] != b[i] {
			return a[i] < b[i];
		}
	}
	false
}
fn addc(a: &L, b: &L) -> (L, bool) {
	let mut r = [0; 4];
	let mut c = 0u128;
	for i in 0..4 {
		let t = a[i] as u128 + b[i] as u128 + c;
		r[i] = t as u64;
		c = t >> 64;
	}
	(r, c != 0)
}
fn subb(a: &L, b: &L) -> (L, bool) {
	let mut r = [0; 4];
	let mut bo = false;
	for i in 0..4 {
		let (t, b1) = a[i].overflowing_sub(b[i]);
		let (t, b2) = t.overflowing_sub(bo as u64);
		r[i] = t;
		bo = b1 | b2;
	}
	(r, bo)
}
fn mulw(a: &L, b: &L) -> [u64; 8] {
	let mut r = [0u64; 8];
	for i in 0..4 {
		let mut c = 0u128;
		for j in 0..4 {
			let t = a[i] as u128 * b[j] as u128 + r[i + j] as u128 + c;
			r[i + j] = t as u64;
			c = t >> 64;
		}
		r[i + 4] = c as u64;
	}
	r
}
fn is_zero(a: &L) -> bool {
	a.iter().all(|x| *x == 0)
}
fn from_be(b: &[u8; 32]) -> L {
	let mut r = [0; 4];
	for i in 0..4 {
		r[3 - i] = u64::from_be_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
	}
	r
}
fn to_be(a: &L) -> [u8; 32] {
	let mut r = [0; 32];
	for i in 0..4 {
		r[i * 8..i * 8 + 8].copy_from_slice(&a[3 - i].to_be_bytes());
	}
	r
}
struct M {
	m: L,
	c: [u64; 4],
}
const FP: M = M { m: P, c: PC };
const FN: M = M { m: N, c: NC };
impl M {
	fn add(&self, a: &L, b: &L) -> L {
		let (r, c) = addc(a, b);
		if c {
			// r + 2^256 - m
			subb(&r, &self.m).0
		} else if !lt(&r, &self.m) {
			subb(&r, &self.m).0
		} else {
			r
		}
	}
	fn sub(&self, a: &L, b: &L) -> L {
		let (r, bo) = subb(a, b);
		if bo { addc(&r, &self.m).0 } else { r }
	}
	fn neg(&self, a: &L) -> L {
		if is_zero(a) { *a } else { subb(&self.m, a).0 }
	}
	fn reduce(&self, w: [u64; 8]) -> L {
		let mut lo = [w[0], w[1], w[2], w[3]];
		let mut hi = [w[4], w[5], w[6], w[7]];
		while !is_zero(&hi) {
			let p = mulw(&hi, &self.c);
			let (r, c) = addc(&lo, &[p[0], p[1], p[2], p[3]]);
			lo = r;
			hi = [p[4], p[5], p[6], p[7]];
			if c {
				hi = addc(&hi, &[1, 0, 0, 0]).0;
			}
		}
		while !lt(&lo, &self.m) {
			lo = subb(&lo, &self.m).0;
		}
		lo
	}
	fn pow(&self, a: &L, e: &L, mul: impl Fn(&L, &L) -> L) -> L {
		let mut r = [1, 0, 0, 0];
		for i in (0..256).rev() {
			r = mul(&r, &r);
			if e[i / 64] >> (i % 64) & 1 == 1 {
				r = mul(&r, a);
			}
		}
		r
	}
	fn norm(&self, a: L) -> L {
		if lt(&a, &self.m) { a } else { subb(&a, &self.m).0 }
	}
}
#[inline]
fn fmul(a: &L, b: &L) -> L {
	let w = mulw(a, b);
	// fast reduction, c fits in one limb
	let mut r = [0u64; 4];
	let mut c = 0u128;
	for i in 0..4 {
		let t = w[i + 4] as u128 * PC[0] as u128 + w[i] as u128 + c;
		r[i] = t as u64;
		c = t >> 64;
	}
	let t = c * PC[0] as u128;
	let (r2, c2) = addc(&r, &[t as u64, (t >> 64) as u64, 0, 0]);
	let mut r = r2;
	if c2 {
		r = addc(&r, &PC).0;
	}
	if !lt(&r, &P) {
		r = subb(&r, &P).0;
	}
	r
}
fn finv(a: &L) -> L {
	let e = subb(&P, &[2, 0, 0, 0]).0;
	FP.pow(a, &e, fmul)
}
fn nmul(a: &L, b: &L) -> L {
	FN.reduce(mulw(a, b))
}
fn ninv(a: &L) -> L {
	let e = subb(&N, &[2, 0, 0, 0]).0;
	FN.pow(a, &e, nmul)
}
fn fsqrt(a: &L) -> Option<L> {
	const E: L = [0xFFFFFFFFBFFFFF0C, !0, !0, 0x3FFFFFFFFFFFFFFF];
	let r = FP.pow(a, &E, fmul);
	if fmul(&r, &r) == *a { Some(r) } else { None }
}
#[derive(Clone, Copy)]
struct J {
	x: L,
	y: L,
	z: L,
}
const INF: J = J { x: [1, 0, 0, 0], y: [1, 0, 0, 0], z: [0; 4] };
impl J {
	fn dbl(&self) -> J {
		if is_zero(&self.z) {
			return INF;
		}
		let a = fmul(&self.x, &self.x);
		let b = fmul(&self.y, &self.y);
		let c = fmul(&b, &b);
		let xb = FP.add(&self.x, &b);
		let d = FP.sub(&FP.sub(&fmul(&xb, &xb), &a), &c);
		let d = FP.add(&d, &d);
		let e = FP.add(&FP.add(&a, &a), &a);
		let f = fmul(&e, &e);
		let x = FP.sub(&f, &FP.add(&d, &d));
		let c2 = FP.add(&c, &c);
		let c4 = FP.add(&c2, &c2);
		let c8 = FP.add(&c4, &c4);
		let y = FP.sub(&fmul(&e, &FP.sub(&d, &x)), &c8);
		let yz = fmul(&self.y, &self.z);
		J { x, y, z: FP.add(&yz, &yz) }
	}
	fn add(&self, o: &J) -> J {
		if is_zero(&self.z) {
			return *o;
		}
		if is_zero(&o.z) {
			return *self;
		}
		let z1 = fmul(&self.z, &self.z);
		let z2 = fmul(&o.z, &o.z);
		let u1 = fmul(&self.x, &z2);
		let u2 = fmul(&o.x, &z1);
		let s1 = fmul(&fmul(&self.y, &o.z), &z2);
		let s2 = fmul(&fmul(&o.y, &self.z), &z1);
		if u1 == u2 {
			return if s1 == s2 { self.dbl() } else { INF };
		}
		let h = FP.sub(&u2, &u1);
		let r = FP.sub(&s2, &s1);
		let h2 = fmul(&h, &h);
		let h3 = fmul(&h2, &h);
		let v = fmul(&u1, &h2);
		let x = FP.sub(&FP.sub(&fmul(&r, &r), &h3), &FP.add(&v, &v));
		let y = FP.sub(&fmul(&r, &FP.sub(&v, &x)), &fmul(&s1, &h3));
		J { x, y, z: fmul(&fmul(&self.z, &o.z), &h) }
	}
	fn affine(&self) -> Option<(L, L)> {
		if is_zero(&self.z) {
			return None;
		}
		let zi = finv(&self.z);
		let z2 = fmul(&zi, &zi);
		Some((fmul(&self.x, &z2), fmul(&self.y, &fmul(&z2, &zi))))
	}
	fn mul(&self, k: &L) -> J {
		let mut t = [INF; 16];
		for i in 1..16 {
			t[i] = t[i - 1].add(self);
		}
		let mut r = INF;
		for i in (0..64).rev() {
			for _ in 0..4 {
				r = r.dbl();
			}
			let w = (k[i / 16] >> ((i % 16) * 4)) & 15;
			if w != 0 {
				r = r.add(&t[w as usize]);
			}
		}
		r
	}
}
fn g() -> J {
	J {
		x: [0x59F2815B16F81798, 0x029BFCDB2DCE28D9, 0x55A06295CE870B07, 0x79BE667EF9DCBBAC],
		y: [0x9C47D08FFB10D4B8, 0xFD17B448A6855419, 0x5DA4FBFC0E1108A8, 0x483ADA7726A3C465],
		z: [1, 0, 0, 0],
	}
}
static GT: OnceLock<Vec<[J; 16]>> = OnceLock::new();
fn gmul(k: &L) -> J {
	let t = GT.get_or_init(|| {
		let mut v = vec![];
		let mut b = g();
		for _ in 0..64 {
			let mut row = [INF; 16];
			for i in 1..16 {
				row[i] = row[i - 1].add(&b);
			}
			v.push(row);
			for _ in 0..4 {
				b = b.dbl();
			}
		}
		v
	});
	let mut r = INF;
	for i in 0..64 {
		let w = (k[i / 16] >> ((i % 16) * 4)) & 15;
		if w != 0 {
			r = r.add(&t[i][w as usize]);
		}
	}
	r
}
fn lift_x(x: &L, odd: bool) -> Option<J> {
	if !lt(x, &P) {
		return None;
	}
	let y2 = FP.add(&fmul(&fmul(x, x), x), &[7, 0, 0, 0]);
	let y = fsqrt(&y2)?;
	let y = if (y[0] & 1 == 1) != odd { FP.neg(&y) } else { y };
	Some(J { x: *x, y, z: [1, 0, 0, 0] })
}
/// 64 byte uncompressed point without prefix
fn ser(p: &J) -> Option<[u8; 64]> {
	let (x, y) = p.affine()?;
	let mut o = [0; 64];
	o[..32].copy_from_slice(&to_be(&x));
	o[32..].copy_from_slice(&to_be(&y));
	Some(o)
}
pub fn compress(u: &[u8; 64]) -> [u8; 33] {
	let mut o = [0; 33];
	o[0] = 2 + (u[63] & 1);
	o[1..].copy_from_slice(&u[..32]);
	o
}
pub fn decompress(c: &[u8; 33]) -> Option<[u8; 64]> {
	remember((2, c.to_vec()), || decompress_new(c).map(Ok)).and_then(|k| k.ok())
}
fn decompress_new(c: &[u8; 33]) -> Option<[u8; 64]> {
	if c[0] != 2 && c[0] != 3 {
		return None;
	}
	let x = from_be(c[1..].try_into().unwrap());
	ser(&lift_x(&x, c[0] == 3)?)
}
pub fn public(secret: &[u8; 32]) -> Option<[u8; 64]> {
	remember((3, secret.to_vec()), || public_new(secret).map(Ok)).and_then(|k| k.ok())
}
fn public_new(secret: &[u8; 32]) -> Option<[u8; 64]> {
	let d = from_be(secret);
	if is_zero(&d) || !lt(&d, &N) {
		return None;
	}
	ser(&gmul(&d))
}
fn hmac(k: &[u8], m: &[u8]) -> [u8; 32] {
	let mut kk = [0u8; 64];
	kk[..k.len()].copy_from_slice(k);
	let mut i: Vec<u8> = kk.iter().map(|x| x ^ 0x36).collect();
	i.extend_from_slice(m);
	let ih = sha2_256(&i);
	let mut o: Vec<u8> = kk.iter().map(|x| x ^ 0x5c).collect();
	o.extend_from_slice(&ih);
	sha2_256(&o)
}
/// recoverable signature r||s||v over a prehashed message
pub fn sign(secret: &[u8; 32], msg: &[u8; 32]) -> Option<[u8; 65]> {
	let d = from_be(secret);
	if is_zero(&d) || !lt(&d, &N) {
		return None;
	}
	let z = FN.norm(from_be(msg));
	let mut k = [0u8; 32];
	let mut v = [1u8; 32];
	for s in 0..2u8 {
		let mut m = v.to_vec();
		m.push(s);
		m.extend_from_slice(secret);
		m.extend_from_slice(&to_be(&z));
		k = hmac(&k, &m);
		v = hmac(&k, &v);
	}
	loop {
		v = hmac(&k, &v);
		let kk = from_be(&v);
		if !is_zero(&kk) && lt(&kk, &N) {
			let (rx, ry) = gmul(&kk).affine()?;
			let r = FN.norm(rx);
			if !is_zero(&r) {
				let mut s = nmul(&ninv(&kk), &FN.add(&z, &nmul(&r, &d)));
				let mut rec = (ry[0] & 1) as u8 | ((r != rx) as u8) << 1;
				const HALF: L = [0xDFE92F46681B20A0, 0x5D576E7357A4501D, !0, 0x7FFFFFFFFFFFFFFF];
				if lt(&HALF, &s) {
					s = FN.neg(&s);
					rec ^= 1;
				}
				if !is_zero(&s) {
					let mut o = [0; 65];
					o[..32].copy_from_slice(&to_be(&r));
					o[32..64].copy_from_slice(&to_be(&s));
					o[64] = rec;
					return Some(o);
				}
			}
		}
		let mut m = v.to_vec();
		m.push(0);
		k = hmac(&k, &m);
		v = hmac(&k, &v);
	}
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum RecErr {
	BadRS,
	BadV,
	BadSignature,
}
/// recover; `v` may be 0..3 or 27..30
pub fn recover(sig: &[u8; 65], msg: &[u8; 32]) -> Result<[u8; 64], RecErr> {
	remember((0, [&sig[..], &msg[..]].concat()), || match recover_new(sig, msg) {
		Ok(k) => Some(Ok(k)),
		Err(e) => Some(Err(e)),
	})
	.unwrap()
}
fn recover_new(sig: &[u8; 65], msg: &[u8; 32]) -> Result<[u8; 64], RecErr> {
	let v = if sig[64] > 26 { sig[64] - 27 } else { sig[64] };
	if v > 3 {
		return Err(RecErr::BadV);
	}
	let r = from_be(sig[..32].try_into().unwrap());
	let s = from_be(sig[32..64].try_into().unwrap());
	if !lt(&r, &N) || !lt(&s, &N) {
		return Err(RecErr::BadRS);
	}
	if is_zero(&r) || is_zero(&s) {
		return Err(RecErr::BadSignature);
	}
	let mut x = r;
	if v & 2 != 0 {
		let (t, c) = addc(&r, &N);
		if c || !lt(&t, &P) {
			return Err(RecErr::BadSignature);
		}
		x = t;
	}
	let rp = lift_x(&x, v & 1 == 1).ok_or(RecErr::BadSignature)?;
	let ri = ninv(&r);
	let z = FN.norm(from_be(msg));
	let u1 = FN.neg(&nmul(&z, &ri));
	let u2 = nmul(&s, &ri);
	let q = gmul(&u1).add(&rp.mul(&u2));
	ser(&q).ok_or(RecErr::BadSignature)
}
/// plain (r,s) verification against an uncompressed key
pub fn verify_rs(rs: &[u8; 64], msg: &[u8; 32], pk: &[u8; 64]) -> bool {
	remember((1, [&rs[..], &msg[..], &pk[..]].concat()), || if verify_new(rs, msg, pk) { Some(Ok(*pk)) } else { None }).is_some()
}
fn verify_new(rs: &[u8; 64], msg: &[u8; 32], pk: &[u8; 64]) -> bool {
	let r = from_be(rs[..32].try_into().unwrap());
	let s = from_be(rs[32..64].try_into().unwrap());
	if !lt(&r, &N) || !lt(&s, &N) || is_zero(&r) || is_zero(&s) {
		return false;
	}
	let p = J { x: from_be(pk[..32].try_into().unwrap()), y: from_be(pk[32..].try_into().unwrap()), z: [1, 0, 0, 0] };
	let si = ninv(&s);
	let z = FN.norm(from_be(msg));
	match gmul(&nmul(&z, &si)).add(&p.mul(&nmul(&r, &si))).affine() {
		Some((x, _)) => FN.norm(x) == r,
		None => false,
	}
}
pub fn on_curve(pk: &[u8; 64]) -> bool {
	let x = from_be(pk[..32].try_into().unwrap());
	let y = from_be(pk[32..].try_into().unwrap());
	lt(&x, &P) && lt(&y, &P) && fmul(&y, &y) == FP.add(&fmul(&fmul(&x, &x), &x), &[7, 0, 0, 0])
}

#[cfg(test)]
mod tests {
	use super::*;
	#[test]
	fn sign_recover() {
		for i in 1..40u8 {
			let sk = [i; 32];
			let pk = public(&sk).unwrap();
			assert!(on_curve(&pk));
			assert_eq!(decompress(&compress(&pk)).unwrap(), pk);
			let m = crate::keccak_256(&[i]);
			let s = sign(&sk, &m).unwrap();
			assert_eq!(recover(&s, &m).unwrap(), pk);
			assert!(verify_rs(s[..64].try_into().unwrap(), &m, &pk));
			let m2 = crate::keccak_256(&[i, 1]);
			assert!(!verify_rs(s[..64].try_into().unwrap(), &m2, &pk));
		}
		// known address: key 0x4646..46
		let pk = public(&[0x46; 32]).unwrap();
		let a = crate::keccak_256(&pk);
		let h: String = a[12..].iter().map(|x| format!("{:02x}", x)).collect();
		assert_eq!(h, "9d8a62f656a8d1615c1294fd71e9cfb3e4855a4f");
	}
}

type Known = Option<Result<[u8; 64], RecErr>>;
thread_local! {
	static KNOWN: core::cell::RefCell<std::collections::BTreeMap<(u8, Vec<u8>), Known>> = Default::default();
}
/// the functions here are pure and slow, and networks ask the same again and again
fn remember(key: (u8, Vec<u8>), f: impl FnOnce() -> Known) -> Known {
	if let Some(k) = KNOWN.with(|m| m.borrow().get(&key).cloned()) {
		return k;
	}
	let v = f();
	KNOWN.with(|m| {
		let mut m = m.borrow_mut();
		if m.len() > 20_000 {
			m.clear();
		}
		m.insert(key, v.clone());
	});
	v
}
