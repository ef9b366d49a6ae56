impl HuffmanCodes {
    #[allow(dead_code)]
    pub(crate) fn verif_new12(tables: Vec<Vec<(u8, u16)>>) -> Self {
        Self { tables: tables.into_iter().map(|t| Table { entries: t.into_iter().map(|(bits, value)| TableEntry { bits, value }).collect() }).collect() }
    }
}
