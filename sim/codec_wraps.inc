W(rle8_multi_compress, 0)
W(rle8_multi_short_compress, 0)
W(rle8_packed_multi_compress, 0)
W(rle8_1symlut_short_compress, 0)
W(rle8_3symlut_compress, 0)
W(rle8_3symlut_short_compress, 0)
W(rle8_7symlut_compress, 0)
W(rle8_7symlut_short_compress, 0)
W(rle8_single_compress, 0)
W(rle8_single_short_compress, 0)
W(rle8_packed_single_compress, 0)
W(rle16_sym_compress, 0)
W(rle16_sym_short_compress, 0)
W(rle16_sym_packed_compress, 0)
W(rle16_1symlut_sym_short_compress, 0)
W(rle16_3symlut_sym_compress, 0)
W(rle16_3symlut_sym_short_compress, 0)
W(rle16_7symlut_sym_compress, 0)
W(rle16_7symlut_sym_short_compress, 0)
W(rle16_byte_compress, 0)
W(rle16_byte_short_compress, 0)
W(rle16_byte_packed_compress, 0)
W(rle16_1symlut_byte_short_compress, 0)
W(rle16_1symlut_byte_short_compress_greedy, 0)
W(rle16_3symlut_byte_compress, 0)
W(rle16_3symlut_byte_short_compress, 0)
W(rle16_3symlut_byte_short_compress_greedy, 0)
W(rle16_7symlut_byte_compress, 0)
W(rle16_7symlut_byte_short_compress, 0)
W(rle16_7symlut_byte_short_compress_greedy, 0)
W(rle24_sym_compress, 0)
W(rle24_sym_short_compress, 0)
W(rle24_sym_packed_compress, 0)
W(rle24_1symlut_sym_short_compress, 0)
W(rle24_3symlut_sym_compress, 0)
W(rle24_3symlut_sym_short_compress, 0)
W(rle24_7symlut_sym_compress, 0)
W(rle24_7symlut_sym_short_compress, 0)
W(rle24_byte_compress, 0)
W(rle24_byte_short_compress, 0)
W(rle24_byte_packed_compress, 0)
W(rle24_1symlut_byte_short_compress, 0)
W(rle24_1symlut_byte_short_compress_greedy, 0)
W(rle24_3symlut_byte_compress, 0)
W(rle24_3symlut_byte_short_compress, 0)
W(rle24_3symlut_byte_short_compress_greedy, 0)
W(rle24_7symlut_byte_compress, 0)
W(rle24_7symlut_byte_short_compress, 0)
W(rle24_7symlut_byte_short_compress_greedy, 0)
W(rle32_sym_compress, 0)
W(rle32_sym_short_compress, 0)
W(rle32_sym_packed_compress, 0)
W(rle32_1symlut_sym_short_compress, 0)
W(rle32_3symlut_sym_compress, 0)
W(rle32_3symlut_sym_short_compress, 0)
W(rle32_7symlut_sym_compress, 0)
W(rle32_7symlut_sym_short_compress, 0)
W(rle32_byte_compress, 0)
W(rle32_byte_short_compress, 0)
W(rle32_byte_packed_compress, 0)
W(rle32_1symlut_byte_short_compress, 0)
W(rle32_1symlut_byte_short_compress_greedy, 0)
W(rle32_3symlut_byte_compress, 0)
W(rle32_3symlut_byte_short_compress, 0)
W(rle32_3symlut_byte_short_compress_greedy, 0)
W(rle32_7symlut_byte_compress, 0)
W(rle32_7symlut_byte_short_compress, 0)
W(rle32_7symlut_byte_short_compress_greedy, 0)
W(rle48_sym_compress, 0)
W(rle48_sym_short_compress, 0)
W(rle48_sym_packed_compress, 0)
W(rle48_1symlut_sym_short_compress, 0)
W(rle48_3symlut_sym_compress, 0)
W(rle48_3symlut_sym_short_compress, 0)
W(rle48_7symlut_sym_compress, 0)
W(rle48_7symlut_sym_short_compress, 0)
W(rle48_byte_compress, 0)
W(rle48_byte_short_compress, 0)
W(rle48_byte_packed_compress, 0)
W(rle48_1symlut_byte_short_compress, 0)
W(rle48_1symlut_byte_short_compress_greedy, 0)
W(rle48_3symlut_byte_compress, 0)
W(rle48_3symlut_byte_short_compress, 0)
W(rle48_3symlut_byte_short_compress_greedy, 0)
W(rle48_7symlut_byte_compress, 0)
W(rle48_7symlut_byte_short_compress, 0)
W(rle48_7symlut_byte_short_compress_greedy, 0)
W(rle64_sym_compress, 0)
W(rle64_sym_short_compress, 0)
W(rle64_sym_packed_compress, 0)
W(rle64_1symlut_sym_short_compress, 0)
W(rle64_3symlut_sym_compress, 0)
W(rle64_3symlut_sym_short_compress, 0)
W(rle64_7symlut_sym_compress, 0)
W(rle64_7symlut_sym_short_compress, 0)
W(rle64_byte_compress, 0)
W(rle64_byte_short_compress, 0)
W(rle64_byte_packed_compress, 0)
W(rle64_1symlut_byte_short_compress, 0)
W(rle64_1symlut_byte_short_compress_greedy, 0)
W(rle64_3symlut_byte_compress, 0)
W(rle64_3symlut_byte_short_compress, 0)
W(rle64_3symlut_byte_short_compress_greedy, 0)
W(rle64_7symlut_byte_compress, 0)
W(rle64_7symlut_byte_short_compress, 0)
W(rle64_7symlut_byte_short_compress_greedy, 0)
W(rle128_sym_compress, 0)
W(rle128_sym_packed_compress, 0)
W(rle128_byte_compress, 0)
W(rle128_byte_packed_compress, 0)
W(rle8_sh_compress, 0)
W(rle8_mmtf128_compress, 0)
W(rle8_low_entropy_compress, 0)
W(rle8_low_entropy_compress_only_max_frequency, 0)
W(rle8_low_entropy_short_compress, 0)
W(rle8_low_entropy_short_compress_only_max_frequency, 0)
W(mmtf128_encode, 0)
W(mmtf256_encode, 0)
W(bitmmtf8_encode, 0)
W(bitmmtf16_encode, 0)
W(rle8_decompress, 1)
W(rle8_multi_short_decompress, 1)
W(rle8_packed_decompress, 1)
W(rle8_1symlut_short_decompress, 1)
W(rle8_3symlut_decompress, 1)
W(rle8_3symlut_short_decompress, 1)
W(rle8_7symlut_decompress, 1)
W(rle8_7symlut_short_decompress, 1)
W(rle8_single_short_decompress, 1)
W(rle16_sym_decompress, 1)
W(rle16_sym_short_decompress, 1)
W(rle16_sym_packed_decompress, 1)
W(rle16_1symlut_sym_short_decompress, 1)
W(rle16_3symlut_sym_decompress, 1)
W(rle16_3symlut_sym_short_decompress, 1)
W(rle16_7symlut_sym_decompress, 1)
W(rle16_7symlut_sym_short_decompress, 1)
W(rle16_byte_decompress, 1)
W(rle16_byte_short_decompress, 1)
W(rle16_byte_packed_decompress, 1)
W(rle16_1symlut_byte_short_decompress, 1)
W(rle16_3symlut_byte_decompress, 1)
W(rle16_3symlut_byte_short_decompress, 1)
W(rle16_7symlut_byte_decompress, 1)
W(rle16_7symlut_byte_short_decompress, 1)
W(rle24_sym_decompress, 1)
W(rle24_sym_short_decompress, 1)
W(rle24_sym_packed_decompress, 1)
W(rle24_1symlut_sym_short_decompress, 1)
W(rle24_3symlut_sym_decompress, 1)
W(rle24_3symlut_sym_short_decompress, 1)
W(rle24_7symlut_sym_decompress, 1)
W(rle24_7symlut_sym_short_decompress, 1)
W(rle24_byte_decompress, 1)
W(rle24_byte_short_decompress, 1)
W(rle24_byte_packed_decompress, 1)
W(rle24_1symlut_byte_short_decompress, 1)
W(rle24_3symlut_byte_decompress, 1)
W(rle24_3symlut_byte_short_decompress, 1)
W(rle24_7symlut_byte_decompress, 1)
W(rle24_7symlut_byte_short_decompress, 1)
W(rle32_sym_decompress, 1)
W(rle32_sym_short_decompress, 1)
W(rle32_sym_packed_decompress, 1)
W(rle32_1symlut_sym_short_decompress, 1)
W(rle32_3symlut_sym_decompress, 1)
W(rle32_3symlut_sym_short_decompress, 1)
W(rle32_7symlut_sym_decompress, 1)
W(rle32_7symlut_sym_short_decompress, 1)
W(rle32_byte_decompress, 1)
W(rle32_byte_short_decompress, 1)
W(rle32_byte_packed_decompress, 1)
W(rle32_1symlut_byte_short_decompress, 1)
W(rle32_3symlut_byte_decompress, 1)
W(rle32_3symlut_byte_short_decompress, 1)
W(rle32_7symlut_byte_decompress, 1)
W(rle32_7symlut_byte_short_decompress, 1)
W(rle48_sym_decompress, 1)
W(rle48_sym_short_decompress, 1)
W(rle48_sym_packed_decompress, 1)
W(rle48_1symlut_sym_short_decompress, 1)
W(rle48_3symlut_sym_decompress, 1)
W(rle48_3symlut_sym_short_decompress, 1)
W(rle48_7symlut_sym_decompress, 1)
W(rle48_7symlut_sym_short_decompress, 1)
W(rle48_byte_decompress, 1)
W(rle48_byte_short_decompress, 1)
W(rle48_byte_packed_decompress, 1)
W(rle48_1symlut_byte_short_decompress, 1)
W(rle48_3symlut_byte_decompress, 1)
W(rle48_3symlut_byte_short_decompress, 1)
W(rle48_7symlut_byte_decompress, 1)
W(rle48_7symlut_byte_short_decompress, 1)
W(rle64_sym_decompress, 1)
W(rle64_sym_short_decompress, 1)
W(rle64_sym_packed_decompress, 1)
W(rle64_1symlut_sym_short_decompress, 1)
W(rle64_3symlut_sym_decompress, 1)
W(rle64_3symlut_sym_short_decompress, 1)
W(rle64_7symlut_sym_decompress, 1)
W(rle64_7symlut_sym_short_decompress, 1)
W(rle64_byte_decompress, 1)
W(rle64_byte_short_decompress, 1)
W(rle64_byte_packed_decompress, 1)
W(rle64_1symlut_byte_short_decompress, 1)
W(rle64_3symlut_byte_decompress, 1)
W(rle64_3symlut_byte_short_decompress, 1)
W(rle64_7symlut_byte_decompress, 1)
W(rle64_7symlut_byte_short_decompress, 1)
W(rle128_sym_decompress, 1)
W(rle128_sym_packed_decompress, 1)
W(rle128_byte_decompress, 1)
W(rle128_byte_packed_decompress, 1)
W(rle8_sh_decompress, 1)
W(rle8_mmtf128_decompress, 1)
W(rle8_low_entropy_decompress, 1)
W(rle8_low_entropy_short_decompress, 1)
W(mmtf128_decode, 1)
W(mmtf256_decode, 1)
W(bitmmtf8_decode, 1)
W(bitmmtf16_decode, 1)
