/* public codecs: label, compress, decompress, family, symbol bytes (from the public API in rle.h) */
X("8 Bit", rle8_multi_compress, rle8_decompress, K_RLE, 1)
X("8 Bit Short", rle8_multi_short_compress, rle8_multi_short_decompress, K_RLE, 1)
X("8 Bit Packed", rle8_packed_multi_compress, rle8_packed_decompress, K_RLE, 1)
X("8 Bit 1LUT Short", rle8_1symlut_short_compress, rle8_1symlut_short_decompress, K_RLE, 1)
X("8 Bit 3LUT", rle8_3symlut_compress, rle8_3symlut_decompress, K_RLE, 1)
X("8 Bit 3LUT Short", rle8_3symlut_short_compress, rle8_3symlut_short_decompress, K_RLE, 1)
X("8 Bit 7LUT", rle8_7symlut_compress, rle8_7symlut_decompress, K_RLE, 1)
X("8 Bit 7LUT Short", rle8_7symlut_short_compress, rle8_7symlut_short_decompress, K_RLE, 1)
X("8 Bit Single", rle8_single_compress, rle8_decompress, K_RLE, 1)
X("8 Bit Single Short", rle8_single_short_compress, rle8_single_short_decompress, K_RLE, 1)
X("8 Bit Single Packed", rle8_packed_single_compress, rle8_packed_decompress, K_RLE, 1)
X("16 Bit (Symbol)", rle16_sym_compress, rle16_sym_decompress, K_RLE, 2)
X("16 Bit Short (Symbol)", rle16_sym_short_compress, rle16_sym_short_decompress, K_RLE, 2)
X("16 Bit Packed (Symbol)", rle16_sym_packed_compress, rle16_sym_packed_decompress, K_RLE, 2)
X("16 Bit 1LUT Short (Symbol)", rle16_1symlut_sym_short_compress, rle16_1symlut_sym_short_decompress, K_RLE, 2)
X("16 Bit 3LUT (Symbol)", rle16_3symlut_sym_compress, rle16_3symlut_sym_decompress, K_RLE, 2)
X("16 Bit 3LUT Short (Symbol)", rle16_3symlut_sym_short_compress, rle16_3symlut_sym_short_decompress, K_RLE, 2)
X("16 Bit 7LUT (Symbol)", rle16_7symlut_sym_compress, rle16_7symlut_sym_decompress, K_RLE, 2)
X("16 Bit 7LUT Short (Symbol)", rle16_7symlut_sym_short_compress, rle16_7symlut_sym_short_decompress, K_RLE, 2)
X("16 Bit (Byte)", rle16_byte_compress, rle16_byte_decompress, K_RLE, 2)
X("16 Bit Short (Byte)", rle16_byte_short_compress, rle16_byte_short_decompress, K_RLE, 2)
X("16 Bit Packed (Byte)", rle16_byte_packed_compress, rle16_byte_packed_decompress, K_RLE, 2)
X("16 Bit 1LUT Short (Byte)", rle16_1symlut_byte_short_compress, rle16_1symlut_byte_short_decompress, K_RLE, 2)
X("16 Bit 1LUT Short Grdy (Byte)", rle16_1symlut_byte_short_compress_greedy, rle16_1symlut_byte_short_decompress, K_RLE, 2)
X("16 Bit 3LUT (Byte)", rle16_3symlut_byte_compress, rle16_3symlut_byte_decompress, K_RLE, 2)
X("16 Bit 3LUT Short (Byte)", rle16_3symlut_byte_short_compress, rle16_3symlut_byte_short_decompress, K_RLE, 2)
X("16 Bit 3LUT Short Grdy (Byte)", rle16_3symlut_byte_short_compress_greedy, rle16_3symlut_byte_short_decompress, K_RLE, 2)
X("16 Bit 7LUT (Byte)", rle16_7symlut_byte_compress, rle16_7symlut_byte_decompress, K_RLE, 2)
X("16 Bit 7LUT Short (Byte)", rle16_7symlut_byte_short_compress, rle16_7symlut_byte_short_decompress, K_RLE, 2)
X("16 Bit 7LUT Short Grdy (Byte)", rle16_7symlut_byte_short_compress_greedy, rle16_7symlut_byte_short_decompress, K_RLE, 2)
X("24 Bit (Symbol)", rle24_sym_compress, rle24_sym_decompress, K_RLE, 3)
X("24 Bit Short (Symbol)", rle24_sym_short_compress, rle24_sym_short_decompress, K_RLE, 3)
X("24 Bit Packed (Symbol)", rle24_sym_packed_compress, rle24_sym_packed_decompress, K_RLE, 3)
X("24 Bit 1LUT Short (Symbol)", rle24_1symlut_sym_short_compress, rle24_1symlut_sym_short_decompress, K_RLE, 3)
X("24 Bit 3LUT (Symbol)", rle24_3symlut_sym_compress, rle24_3symlut_sym_decompress, K_RLE, 3)
X("24 Bit 3LUT Short (Symbol)", rle24_3symlut_sym_short_compress, rle24_3symlut_sym_short_decompress, K_RLE, 3)
X("24 Bit 7LUT (Symbol)", rle24_7symlut_sym_compress, rle24_7symlut_sym_decompress, K_RLE, 3)
X("24 Bit 7LUT Short (Symbol)", rle24_7symlut_sym_short_compress, rle24_7symlut_sym_short_decompress, K_RLE, 3)
X("24 Bit (Byte)", rle24_byte_compress, rle24_byte_decompress, K_RLE, 3)
X("24 Bit Short (Byte)", rle24_byte_short_compress, rle24_byte_short_decompress, K_RLE, 3)
X("24 Bit Packed (Byte)", rle24_byte_packed_compress, rle24_byte_packed_decompress, K_RLE, 3)
X("24 Bit 1LUT Short (Byte)", rle24_1symlut_byte_short_compress, rle24_1symlut_byte_short_decompress, K_RLE, 3)
X("24 Bit 1LUT Short Grdy (Byte)", rle24_1symlut_byte_short_compress_greedy, rle24_1symlut_byte_short_decompress, K_RLE, 3)
X("24 Bit 3LUT (Byte)", rle24_3symlut_byte_compress, rle24_3symlut_byte_decompress, K_RLE, 3)
X("24 Bit 3LUT Short (Byte)", rle24_3symlut_byte_short_compress, rle24_3symlut_byte_short_decompress, K_RLE, 3)
X("24 Bit 3LUT Short Grdy (Byte)", rle24_3symlut_byte_short_compress_greedy, rle24_3symlut_byte_short_decompress, K_RLE, 3)
X("24 Bit 7LUT (Byte)", rle24_7symlut_byte_compress, rle24_7symlut_byte_decompress, K_RLE, 3)
X("24 Bit 7LUT Short (Byte)", rle24_7symlut_byte_short_compress, rle24_7symlut_byte_short_decompress, K_RLE, 3)
X("24 Bit 7LUT Short Grdy (Byte)", rle24_7symlut_byte_short_compress_greedy, rle24_7symlut_byte_short_decompress, K_RLE, 3)
X("32 Bit (Symbol)", rle32_sym_compress, rle32_sym_decompress, K_RLE, 4)
X("32 Bit Short (Symbol)", rle32_sym_short_compress, rle32_sym_short_decompress, K_RLE, 4)
X("32 Bit Packed (Symbol)", rle32_sym_packed_compress, rle32_sym_packed_decompress, K_RLE, 4)
X("32 Bit 1LUT Short (Symbol)", rle32_1symlut_sym_short_compress, rle32_1symlut_sym_short_decompress, K_RLE, 4)
X("32 Bit 3LUT (Symbol)", rle32_3symlut_sym_compress, rle32_3symlut_sym_decompress, K_RLE, 4)
X("32 Bit 3LUT Short (Symbol)", rle32_3symlut_sym_short_compress, rle32_3symlut_sym_short_decompress, K_RLE, 4)
X("32 Bit 7LUT (Symbol)", rle32_7symlut_sym_compress, rle32_7symlut_sym_decompress, K_RLE, 4)
X("32 Bit 7LUT Short (Symbol)", rle32_7symlut_sym_short_compress, rle32_7symlut_sym_short_decompress, K_RLE, 4)
X("32 Bit (Byte)", rle32_byte_compress, rle32_byte_decompress, K_RLE, 4)
X("32 Bit Short (Byte)", rle32_byte_short_compress, rle32_byte_short_decompress, K_RLE, 4)
X("32 Bit Packed (Byte)", rle32_byte_packed_compress, rle32_byte_packed_decompress, K_RLE, 4)
X("32 Bit 1LUT Short (Byte)", rle32_1symlut_byte_short_compress, rle32_1symlut_byte_short_decompress, K_RLE, 4)
X("32 Bit 1LUT Short Grdy (Byte)", rle32_1symlut_byte_short_compress_greedy, rle32_1symlut_byte_short_decompress, K_RLE, 4)
X("32 Bit 3LUT (Byte)", rle32_3symlut_byte_compress, rle32_3symlut_byte_decompress, K_RLE, 4)
X("32 Bit 3LUT Short (Byte)", rle32_3symlut_byte_short_compress, rle32_3symlut_byte_short_decompress, K_RLE, 4)
X("32 Bit 3LUT Short Grdy (Byte)", rle32_3symlut_byte_short_compress_greedy, rle32_3symlut_byte_short_decompress, K_RLE, 4)
X("32 Bit 7LUT (Byte)", rle32_7symlut_byte_compress, rle32_7symlut_byte_decompress, K_RLE, 4)
X("32 Bit 7LUT Short (Byte)", rle32_7symlut_byte_short_compress, rle32_7symlut_byte_short_decompress, K_RLE, 4)
X("32 Bit 7LUT Short Grdy (Byte)", rle32_7symlut_byte_short_compress_greedy, rle32_7symlut_byte_short_decompress, K_RLE, 4)
X("48 Bit (Symbol)", rle48_sym_compress, rle48_sym_decompress, K_RLE, 6)
X("48 Bit Short (Symbol)", rle48_sym_short_compress, rle48_sym_short_decompress, K_RLE, 6)
X("48 Bit Packed (Symbol)", rle48_sym_packed_compress, rle48_sym_packed_decompress, K_RLE, 6)
X("48 Bit 1LUT Short (Symbol)", rle48_1symlut_sym_short_compress, rle48_1symlut_sym_short_decompress, K_RLE, 6)
X("48 Bit 3LUT (Symbol)", rle48_3symlut_sym_compress, rle48_3symlut_sym_decompress, K_RLE, 6)
X("48 Bit 3LUT Short (Symbol)", rle48_3symlut_sym_short_compress, rle48_3symlut_sym_short_decompress, K_RLE, 6)
X("48 Bit 7LUT (Symbol)", rle48_7symlut_sym_compress, rle48_7symlut_sym_decompress, K_RLE, 6)
X("48 Bit 7LUT Short (Symbol)", rle48_7symlut_sym_short_compress, rle48_7symlut_sym_short_decompress, K_RLE, 6)
X("48 Bit (Byte)", rle48_byte_compress, rle48_byte_decompress, K_RLE, 6)
X("48 Bit Short (Byte)", rle48_byte_short_compress, rle48_byte_short_decompress, K_RLE, 6)
X("48 Bit Packed (Byte)", rle48_byte_packed_compress, rle48_byte_packed_decompress, K_RLE, 6)
X("48 Bit 1LUT Short (Byte)", rle48_1symlut_byte_short_compress, rle48_1symlut_byte_short_decompress, K_RLE, 6)
X("48 Bit 1LUT Short Grdy (Byte)", rle48_1symlut_byte_short_compress_greedy, rle48_1symlut_byte_short_decompress, K_RLE, 6)
X("48 Bit 3LUT (Byte)", rle48_3symlut_byte_compress, rle48_3symlut_byte_decompress, K_RLE, 6)
X("48 Bit 3LUT Short (Byte)", rle48_3symlut_byte_short_compress, rle48_3symlut_byte_short_decompress, K_RLE, 6)
X("48 Bit 3LUT Short Grdy (Byte)", rle48_3symlut_byte_short_compress_greedy, rle48_3symlut_byte_short_decompress, K_RLE, 6)
X("48 Bit 7LUT (Byte)", rle48_7symlut_byte_compress, rle48_7symlut_byte_decompress, K_RLE, 6)
X("48 Bit 7LUT Short (Byte)", rle48_7symlut_byte_short_compress, rle48_7symlut_byte_short_decompress, K_RLE, 6)
X("48 Bit 7LUT Short Grdy (Byte)", rle48_7symlut_byte_short_compress_greedy, rle48_7symlut_byte_short_decompress, K_RLE, 6)
X("64 Bit (Symbol)", rle64_sym_compress, rle64_sym_decompress, K_RLE, 8)
X("64 Bit Short (Symbol)", rle64_sym_short_compress, rle64_sym_short_decompress, K_RLE, 8)
X("64 Bit Packed (Symbol)", rle64_sym_packed_compress, rle64_sym_packed_decompress, K_RLE, 8)
X("64 Bit 1LUT Short (Symbol)", rle64_1symlut_sym_short_compress, rle64_1symlut_sym_short_decompress, K_RLE, 8)
X("64 Bit 3LUT (Symbol)", rle64_3symlut_sym_compress, rle64_3symlut_sym_decompress, K_RLE, 8)
X("64 Bit 3LUT Short (Symbol)", rle64_3symlut_sym_short_compress, rle64_3symlut_sym_short_decompress, K_RLE, 8)
X("64 Bit 7LUT (Symbol)", rle64_7symlut_sym_compress, rle64_7symlut_sym_decompress, K_RLE, 8)
X("64 Bit 7LUT Short (Symbol)", rle64_7symlut_sym_short_compress, rle64_7symlut_sym_short_decompress, K_RLE, 8)
X("64 Bit (Byte)", rle64_byte_compress, rle64_byte_decompress, K_RLE, 8)
X("64 Bit Short (Byte)", rle64_byte_short_compress, rle64_byte_short_decompress, K_RLE, 8)
X("64 Bit Packed (Byte)", rle64_byte_packed_compress, rle64_byte_packed_decompress, K_RLE, 8)
X("64 Bit 1LUT Short (Byte)", rle64_1symlut_byte_short_compress, rle64_1symlut_byte_short_decompress, K_RLE, 8)
X("64 Bit 1LUT Short Grdy (Byte)", rle64_1symlut_byte_short_compress_greedy, rle64_1symlut_byte_short_decompress, K_RLE, 8)
X("64 Bit 3LUT (Byte)", rle64_3symlut_byte_compress, rle64_3symlut_byte_decompress, K_RLE, 8)
X("64 Bit 3LUT Short (Byte)", rle64_3symlut_byte_short_compress, rle64_3symlut_byte_short_decompress, K_RLE, 8)
X("64 Bit 3LUT Short Grdy (Byte)", rle64_3symlut_byte_short_compress_greedy, rle64_3symlut_byte_short_decompress, K_RLE, 8)
X("64 Bit 7LUT (Byte)", rle64_7symlut_byte_compress, rle64_7symlut_byte_decompress, K_RLE, 8)
X("64 Bit 7LUT Short (Byte)", rle64_7symlut_byte_short_compress, rle64_7symlut_byte_short_decompress, K_RLE, 8)
X("64 Bit 7LUT Short Grdy (Byte)", rle64_7symlut_byte_short_compress_greedy, rle64_7symlut_byte_short_decompress, K_RLE, 8)
X("128 Bit (Symbol)", rle128_sym_compress, rle128_sym_decompress, K_RLE, 16)
X("128 Bit Packed (Symbol)", rle128_sym_packed_compress, rle128_sym_packed_decompress, K_RLE, 16)
X("128 Bit (Byte)", rle128_byte_compress, rle128_byte_decompress, K_RLE, 16)
X("128 Bit Packed (Byte)", rle128_byte_packed_compress, rle128_byte_packed_decompress, K_RLE, 16)
X("8 Bit RLE + Huffman-esque", rle8_sh_compress, rle8_sh_decompress, K_SH, 1)
X("8 Bit MMTF 128", rle8_mmtf128_compress, rle8_mmtf128_decompress, K_RLEMMTF, 16)
X("Low Entropy", rle8_low_entropy_compress, rle8_low_entropy_decompress, K_LE, 1)
X("Low Entropy Single", rle8_low_entropy_compress_only_max_frequency, rle8_low_entropy_decompress, K_LE, 1)
X("Low Entropy Short", rle8_low_entropy_short_compress, rle8_low_entropy_short_decompress, K_LES, 1)
X("Low Entropy Short Single", rle8_low_entropy_short_compress_only_max_frequency, rle8_low_entropy_short_decompress, K_LES, 1)
X("Multi MTF 128 Bit (Transform)", mmtf128_encode, mmtf128_decode, K_XFORM, 16)
X("Multi MTF 256 Bit (Transform)", mmtf256_encode, mmtf256_decode, K_XFORM, 32)
X("Bit MMTF 8 Bit (Transform)", bitmmtf8_encode, bitmmtf8_decode, K_XFORM, 1)
X("Bit MMTF 16 Bit (Transform)", bitmmtf16_encode, bitmmtf16_decode, K_XFORM, 2)
