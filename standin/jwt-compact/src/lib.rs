//! Stand-in for the fork of `jwt-compact` the repository pins: compact Ed25519 tokens, with the same public shape as
//! far as the repository uses it.
use base64ct::{Base64UrlUnpadded, Encoding};
use chrono::{DateTime, TimeZone, Utc};
use parity_scale_codec::{Decode, Encode};
use scale_info::TypeInfo;
use serde::{de::DeserializeOwned, Deserialize, Deserializer, Serialize, Serializer};
use std::marker::PhantomData;

#[derive(Debug)]
pub struct Failure(pub &'static str);
impl std::fmt::Display for Failure {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		f.write_str(self.0)
	}
}

#[derive(Debug)]
pub enum ParseError {
	InvalidTokenStructure,
	MalformedHeader,
}
#[derive(Debug)]
pub enum ValidationError {
	AlgorithmMismatch,
	MalformedSignature,
	InvalidSignature,
	MalformedClaims,
}
#[derive(Debug)]
pub enum CreationError {
	Claims,
}

#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct Empty {}

#[derive(Debug, Clone, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct Header<T = Empty> {
	#[serde(flatten)]
	pub other_fields: T,
}
impl Header<Empty> {
	pub fn empty() -> Self {
		Self::default()
	}
}

fn ser_ts<S: Serializer>(t: &Option<DateTime<Utc>>, s: S) -> Result<S::Ok, S::Error> {
	s.serialize_i64(t.as_ref().expect("skipped when absent").timestamp())
}
fn de_ts<'de, D: Deserializer<'de>>(d: D) -> Result<Option<DateTime<Utc>>, D::Error> {
	let v = i64::deserialize(d)?;
	Utc.timestamp_opt(v, 0).single().map(Some).ok_or_else(|| serde::de::Error::custom("UTC timestamp overflow"))
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct Claims<T> {
	#[serde(rename = "exp", default, skip_serializing_if = "Option::is_none", serialize_with = "ser_ts", deserialize_with = "de_ts")]
	pub expiration: Option<DateTime<Utc>>,
	#[serde(rename = "nbf", default, skip_serializing_if = "Option::is_none", serialize_with = "ser_ts", deserialize_with = "de_ts")]
	pub not_before: Option<DateTime<Utc>>,
	#[serde(rename = "iat", default, skip_serializing_if = "Option::is_none", serialize_with = "ser_ts", deserialize_with = "de_ts")]
	pub issued_at: Option<DateTime<Utc>>,
	#[serde(flatten)]
	pub custom: T,
}
impl<T> Claims<T> {
	pub fn new(custom: T) -> Self {
		Self { expiration: None, not_before: None, issued_at: None, custom }
	}
}

#[derive(Debug, Clone, PartialEq, Eq, Encode, Decode, TypeInfo)]
pub struct UntrustedToken {
	signed_data: Vec<u8>,
	algorithm: Vec<u8>,
	serialized_claims: Vec<u8>,
	signature: Vec<u8>,
}
#[derive(Deserialize)]
struct CompleteHeader {
	alg: String,
}
impl UntrustedToken {
	pub fn new<S: AsRef<str> + ?Sized>(s: &S) -> Result<Self, ParseError> {
		let token = s.as_ref();
		let parts: Vec<&str> = token.splitn(4, '.').collect();
		let [h, c, sig] = parts[..] else { return Err(ParseError::InvalidTokenStructure) };
		let dec = |p: &str| Base64UrlUnpadded::decode_vec(p).map_err(|_| ParseError::InvalidTokenStructure);
		let header: CompleteHeader = serde_json::from_slice(&dec(h)?).map_err(|_| ParseError::MalformedHeader)?;
		Ok(Self {
			signed_data: token.as_bytes()[..h.len() + 1 + c.len()].to_vec(),
			algorithm: header.alg.into_bytes(),
			serialized_claims: dec(c)?,
			signature: dec(sig)?,
		})
	}
	pub fn algorithm(&self) -> &str {
		core::str::from_utf8(&self.algorithm).unwrap_or("")
	}
}

#[derive(Debug, Clone)]
pub struct Token<T, H = Empty> {
	header: Header<H>,
	claims: Claims<T>,
}
impl<T, H> Token<T, H> {
	pub fn header(&self) -> &Header<H> {
		&self.header
	}
	pub fn claims(&self) -> &Claims<T> {
		&self.claims
	}
	pub fn into_parts(self) -> (Header<H>, Claims<T>) {
		(self.header, self.claims)
	}
}

pub trait Algorithm {
	type SigningKey;
	type VerifyingKey;
	fn name(&self) -> &'static str;
	fn sign(&self, signing_key: &Self::SigningKey, message: &[u8]) -> [u8; 64];
	fn verify_signature(&self, signature: &[u8; 64], verifying_key: &Self::VerifyingKey, message: &[u8]) -> bool;
}

pub struct Validator<'a, A: Algorithm + ?Sized, T> {
	algorithm: &'a A,
	verifying_key: &'a A::VerifyingKey,
	_t: PhantomData<T>,
}
impl<'a, A: Algorithm, T: DeserializeOwned> Validator<'a, A, T> {
	pub fn validate(&self, token: &UntrustedToken) -> Result<Token<T>, ValidationError> {
		if token.algorithm != self.algorithm.name().as_bytes() {
			return Err(ValidationError::AlgorithmMismatch)
		}
		let sig: &[u8; 64] =
			token.signature.as_slice().try_into().map_err(|_| ValidationError::MalformedSignature)?;
		if !self.algorithm.verify_signature(sig, self.verifying_key, &token.signed_data) {
			return Err(ValidationError::InvalidSignature)
		}
		let claims = serde_json::from_slice(&token.serialized_claims).map_err(|_| ValidationError::MalformedClaims)?;
		Ok(Token { header: Header::empty(), claims })
	}
}

pub trait AlgorithmExt: Algorithm {
	fn token<T: Serialize>(
		&self,
		header: &Header,
		claims: &Claims<T>,
		signing_key: &Self::SigningKey,
	) -> Result<String, CreationError>;
	fn validator<'a, T>(&'a self, verifying_key: &'a Self::VerifyingKey) -> Validator<'a, Self, T>;
}
impl<A: Algorithm> AlgorithmExt for A {
	fn token<T: Serialize>(
		&self,
		_header: &Header,
		claims: &Claims<T>,
		signing_key: &A::SigningKey,
	) -> Result<String, CreationError> {
		let header = format!("{{\"alg\":\"{}\"}}", self.name());
		let claims = serde_json::to_vec(claims).map_err(|_| CreationError::Claims)?;
		let mut out = Base64UrlUnpadded::encode_string(header.as_bytes());
		out.push('.');
		out.push_str(&Base64UrlUnpadded::encode_string(&claims));
		let sig = self.sign(signing_key, out.as_bytes());
		out.push('.');
		out.push_str(&Base64UrlUnpadded::encode_string(&sig));
		Ok(out)
	}
	fn validator<'a, T>(&'a self, verifying_key: &'a A::VerifyingKey) -> Validator<'a, A, T> {
		Validator { algorithm: self, verifying_key, _t: PhantomData }
	}
}

pub mod alg {
	use super::{Algorithm, Failure};
	use ed25519_dalek::{Signer, Verifier};

	pub trait SigningKey<T>: Sized
	where
		T: Algorithm<SigningKey = Self>,
	{
		fn from_slice(raw: &[u8]) -> Result<Self, Failure>;
		fn to_verifying_key(&self) -> T::VerifyingKey;
	}
	pub trait VerifyingKey<T>: Sized
	where
		T: Algorithm<VerifyingKey = Self>,
	{
		fn from_slice(raw: &[u8]) -> Result<Self, Failure>;
	}

	#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
	pub struct Ed25519;
	#[derive(Clone)]
	pub struct EdSigning(ed25519_dalek::SigningKey);
	#[derive(Clone)]
	pub struct EdVerifying(ed25519_dalek::VerifyingKey);

	impl Algorithm for Ed25519 {
		type SigningKey = EdSigning;
		type VerifyingKey = EdVerifying;
		fn name(&self) -> &'static str {
			"EdDSA"
		}
		fn sign(&self, k: &EdSigning, m: &[u8]) -> [u8; 64] {
			k.0.sign(m).to_bytes()
		}
		fn verify_signature(&self, s: &[u8; 64], k: &EdVerifying, m: &[u8]) -> bool {
			k.0.verify(m, &ed25519_dalek::Signature::from_bytes(s)).is_ok()
		}
	}
	impl SigningKey<Ed25519> for EdSigning {
		fn from_slice(raw: &[u8]) -> Result<Self, Failure> {
			let b: [u8; 32] = raw.try_into().map_err(|_| Failure("signing key length"))?;
			Ok(EdSigning(ed25519_dalek::SigningKey::from_bytes(&b)))
		}
		fn to_verifying_key(&self) -> EdVerifying {
			EdVerifying(self.0.verifying_key())
		}
	}
	impl EdVerifying {
		pub fn as_bytes(&self) -> [u8; 32] {
			self.0.to_bytes()
		}
	}
	impl VerifyingKey<Ed25519> for EdVerifying {
		fn from_slice(raw: &[u8]) -> Result<Self, Failure> {
			let b: [u8; 32] = raw.try_into().map_err(|_| Failure("verifying key length"))?;
			ed25519_dalek::VerifyingKey::from_bytes(&b).map(EdVerifying).map_err(|_| Failure("verifying key"))
		}
	}
}
