use {ed25519_dalek::{ExpandedSecretKey, PublicKey, SecretKey}, solana_program::pubkey::Pubkey};

pub struct Key {
    pub pk: Pubkey,
    pub seed: [u8; 32],
    public: PublicKey,
    exp: ExpandedSecretKey,
}
impl Key {
    pub fn new(seed: [u8; 32]) -> Key {
        let s = SecretKey::from_bytes(&seed).unwrap();
        let public = PublicKey::from(&s);
        Key { pk: Pubkey::new_from_array(public.to_bytes()), seed, public, exp: ExpandedSecretKey::from(&s) }
    }
    pub fn sign(&self, msg: &[u8]) -> [u8; 64] {
        self.exp.sign(msg, &self.public).to_bytes()
    }
    /// Another valid signature of the same message (a nonce of its own).
    pub fn sign_again(&self, msg: &[u8], salt: [u8; 32]) -> [u8; 64] {
        let mut b = self.exp.to_bytes();
        b[32..].copy_from_slice(&salt);
        ExpandedSecretKey::from_bytes(&b).unwrap().sign(msg, &self.public).to_bytes()
    }
}
