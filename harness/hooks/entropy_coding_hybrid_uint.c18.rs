impl HybridUint {
    #[allow(dead_code)]
    pub(crate) fn verif_new(split_exponent: u32, msb_in_token: u32, lsb_in_token: u32) -> Self {
        Self { split_token: 1 << split_exponent, split_exponent, msb_in_token, lsb_in_token }
    }
}
