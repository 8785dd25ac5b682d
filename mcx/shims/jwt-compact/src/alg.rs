use crate::{Algorithm, ValidationError};
use ed25519_dalek::{Signature, Signer, Verifier};
use std::{cell::RefCell, collections::HashMap};

// Both results depend on nothing but their arguments: an exploration asks for the same few over and over.
thread_local! {
	static KEYS: RefCell<HashMap<[u8; 32], Option<ed25519_dalek::VerifyingKey>>> = Default::default();
	static VERIFIED: RefCell<HashMap<(Vec<u8>, Vec<u8>, Vec<u8>), bool>> = Default::default();
}

#[derive(Debug)]
pub struct KeyError;

#[derive(Clone, Copy, Debug, Default)]
pub struct Ed25519;

pub trait SigningKey<A>: Sized {
	fn from_slice(raw: &[u8]) -> Result<Self, KeyError>;
}
pub trait VerifyingKey<A>: Sized {
	fn from_slice(raw: &[u8]) -> Result<Self, KeyError>;
}
impl SigningKey<Ed25519> for ed25519_dalek::SigningKey {
	fn from_slice(raw: &[u8]) -> Result<Self, KeyError> {
		Ok(ed25519_dalek::SigningKey::from_bytes(raw.try_into().map_err(|_| KeyError)?))
	}
}
impl VerifyingKey<Ed25519> for ed25519_dalek::VerifyingKey {
	fn from_slice(raw: &[u8]) -> Result<Self, KeyError> {
		let raw: [u8; 32] = raw.try_into().map_err(|_| KeyError)?;
		KEYS.with(|k| *k.borrow_mut().entry(raw).or_insert_with(|| ed25519_dalek::VerifyingKey::from_bytes(&raw).ok())).ok_or(KeyError)
	}
}
impl Algorithm for Ed25519 {
	type SigningKey = ed25519_dalek::SigningKey;
	type VerifyingKey = ed25519_dalek::VerifyingKey;
	const NAME: &'static str = "EdDSA";
	fn sign(&self, key: &Self::SigningKey, message: &[u8]) -> Vec<u8> {
		key.sign(message).to_bytes().to_vec()
	}
	fn verify(&self, key: &Self::VerifyingKey, message: &[u8], signature: &[u8]) -> Result<(), ValidationError> {
		let s = Signature::from_slice(signature).map_err(|_| ValidationError::MalformedSignature)?;
		let question = (key.as_bytes().to_vec(), message.to_vec(), signature.to_vec());
		let known = VERIFIED.with(|v| v.borrow().get(&question).copied());
		let good = known.unwrap_or_else(|| {
			let good = key.verify(message, &s).is_ok();
			VERIFIED.with(|v| v.borrow_mut().insert(question, good));
			good
		});
		good.then_some(()).ok_or(ValidationError::InvalidSignature)
	}
}
