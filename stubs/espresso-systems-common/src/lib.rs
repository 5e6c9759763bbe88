pub mod jellyfish {
    pub mod tag {
        pub const PROOF: &str = "PROOF";
        pub const BATCHPROOF: &str = "BATCHPROOF";
    }
}
