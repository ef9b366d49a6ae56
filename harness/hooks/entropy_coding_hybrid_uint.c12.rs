impl HybridUint {
    #[allow(dead_code)]
    pub(crate) fn verif_new12(split_exponent: u32) -> Self {
        Self { split_token: 1 << split_exponent, split_exponent, msb_in_token: 0, lsb_in_token: 0 }
    }
}
