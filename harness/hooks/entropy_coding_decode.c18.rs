// Histogram values for harnesses of other modules.
#[allow(dead_code)]
pub(crate) mod verif_c18h {
    use super::*;
    pub(crate) fn histograms(context_map: Vec<u8>, uint_configs: Vec<HybridUint>, codes: Codes, lz77: Option<(u32, u32)>) -> Histograms {
        Histograms {
            lz77_params: Lz77Params { enabled: lz77.is_some(), min_symbol: lz77.map(|x| x.0), min_length: lz77.map(|x| x.1) },
            lz77_length_uint: lz77.map(|_| HybridUint::verif_new(0, 0, 0)),
            lz_dist_cluster: if lz77.is_some() { *context_map.last().unwrap() } else { 0 },
            context_map,
            log_alpha_size: 15,
            uint_configs,
            codes,
        }
    }
    pub(crate) fn reader() -> SymbolReader {
        SymbolReader { state: SymbolReaderState::None, ans_reader: AnsReader::new_unused(), errors: ErrorState::new() }
    }
    pub(crate) fn no_codes() -> Codes { Codes::Huffman(HuffmanCodes::verif_new(vec![])) }
    pub(crate) fn empty_histograms() -> Histograms { histograms(vec![], vec![], no_codes(), None) }
}
