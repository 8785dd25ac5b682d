//! Stand-in for the fork of jwt-compact that /repo uses (a git dependency that is not in this
//! sandbox): compact JWTs signed with Ed25519, as far as the code of /repo names them. Signatures
//! are real ed25519 signatures over `header.payload`.
pub mod alg;

use base64::{decode_config, encode_config, URL_SAFE_NO_PAD};
use chrono::{DateTime, TimeZone, Utc};
use parity_scale_codec::{Decode, Encode};
use scale_info::TypeInfo;
use serde::{de::DeserializeOwned, Deserialize, Serialize};

#[derive(Debug)]
pub enum ParseError {
	InvalidTokenStructure,
	InvalidBase64Encoding,
	MalformedHeader,
}
#[derive(Debug)]
pub enum ValidationError {
	AlgorithmMismatch,
	MalformedSignature,
	InvalidSignature,
	MalformedClaims(serde_json::Error),
}
#[derive(Debug)]
pub enum CreationError {
	Claims(serde_json::Error),
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Header;
impl Header {
	pub fn empty() -> Self {
		Header
	}
}

#[derive(Clone, Debug, PartialEq)]
pub struct Claims<T> {
	pub expiration: Option<DateTime<Utc>>,
	pub not_before: Option<DateTime<Utc>>,
	pub issued_at: Option<DateTime<Utc>>,
	pub custom: T,
}
impl<T> Claims<T> {
	pub fn new(custom: T) -> Self {
		Claims { expiration: None, not_before: None, issued_at: None, custom }
	}
}

#[derive(Serialize, Deserialize)]
struct Wire<T> {
	#[serde(skip_serializing_if = "Option::is_none", default)]
	exp: Option<i64>,
	#[serde(skip_serializing_if = "Option::is_none", default)]
	nbf: Option<i64>,
	#[serde(skip_serializing_if = "Option::is_none", default)]
	iat: Option<i64>,
	#[serde(flatten)]
	custom: T,
}

/// A parsed token whose signature has not been checked.
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
pub struct UntrustedToken {
	signed: Vec<u8>,
	algorithm: Vec<u8>,
	claims: Vec<u8>,
	signature: Vec<u8>,
}
#[derive(Deserialize)]
struct RawHeader {
	alg: String,
}
impl UntrustedToken {
	pub fn new(s: &str) -> Result<Self, ParseError> {
		let parts: Vec<&str> = s.split('.').collect();
		let [h, c, g] = parts[..] else { return Err(ParseError::InvalidTokenStructure) };
		let b = |x: &str| decode_config(x, URL_SAFE_NO_PAD).map_err(|_| ParseError::InvalidBase64Encoding);
		let header: RawHeader = serde_json::from_slice(&b(h)?).map_err(|_| ParseError::MalformedHeader)?;
		Ok(UntrustedToken {
			signed: format!("{h}.{c}").into_bytes(),
			algorithm: header.alg.into_bytes(),
			claims: b(c)?,
			signature: b(g)?,
		})
	}
}

#[derive(Clone, Debug)]
pub struct Token<T> {
	claims: Claims<T>,
}
impl<T> Token<T> {
	pub fn claims(&self) -> &Claims<T> {
		&self.claims
	}
}

pub trait Algorithm {
	type SigningKey;
	type VerifyingKey;
	const NAME: &'static str;
	fn sign(&self, key: &Self::SigningKey, message: &[u8]) -> Vec<u8>;
	fn verify(&self, key: &Self::VerifyingKey, message: &[u8], signature: &[u8]) -> Result<(), ValidationError>;
}

pub struct Validator<'a, A: Algorithm, T> {
	algorithm: &'a A,
	key: &'a A::VerifyingKey,
	_t: core::marker::PhantomData<T>,
}
impl<'a, A: Algorithm, T: DeserializeOwned> Validator<'a, A, T> {
	pub fn validate(&self, token: &UntrustedToken) -> Result<Token<T>, ValidationError> {
		if token.algorithm != A::NAME.as_bytes() {
			return Err(ValidationError::AlgorithmMismatch);
		}
		self.algorithm.verify(self.key, &token.signed, &token.signature)?;
		let w: Wire<T> = serde_json::from_slice(&token.claims).map_err(ValidationError::MalformedClaims)?;
		let t = |x: Option<i64>| x.and_then(|x| Utc.timestamp_opt(x, 0).single());
		Ok(Token {
			claims: Claims {
				expiration: t(w.exp),
				not_before: t(w.nbf),
				issued_at: t(w.iat),
				custom: w.custom,
			},
		})
	}
}

pub trait AlgorithmExt: Algorithm + Sized {
	fn token<T: Serialize>(
		&self,
		header: &Header,
		claims: &Claims<T>,
		key: &Self::SigningKey,
	) -> Result<String, CreationError>;
	fn validator<'a, T>(&'a self, key: &'a Self::VerifyingKey) -> Validator<'a, Self, T>;
}
impl<A: Algorithm> AlgorithmExt for A {
	fn token<T: Serialize>(
		&self,
		_header: &Header,
		claims: &Claims<T>,
		key: &Self::SigningKey,
	) -> Result<String, CreationError> {
		let t = |x: &Option<DateTime<Utc>>| x.as_ref().map(|x| x.timestamp());
		let w = Wire {
			exp: t(&claims.expiration),
			nbf: t(&claims.not_before),
			iat: t(&claims.issued_at),
			custom: &claims.custom,
		};
		let c = serde_json::to_vec(&w).map_err(CreationError::Claims)?;
		let h = format!("{{\"alg\":\"{}\"}}", A::NAME);
		let mut s = format!("{}.{}", encode_config(h, URL_SAFE_NO_PAD), encode_config(c, URL_SAFE_NO_PAD));
		let g = self.sign(key, s.as_bytes());
		s.push('.');
		s.push_str(&encode_config(g, URL_SAFE_NO_PAD));
		Ok(s)
	}
	fn validator<'a, T>(&'a self, key: &'a Self::VerifyingKey) -> Validator<'a, Self, T> {
		Validator { algorithm: self, key, _t: Default::default() }
	}
}
