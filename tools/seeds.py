S = {}


def seed(id, property, edits, needs, breaks, demo, **k):
    S[id] = dict(property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **k)


A = "psi/algorithm/"
SP = A + "sealpir/seal_pir.cc"
seed("s01", "C03", [(SP, "  *target = *target << room;\n  return output;", "  if (room < 8) {\n    *target = *target << room;\n  }\n  return output;")],
     "a row whose last coefficient has eight or more unused bits", "the last bytes of the row are stored right-aligned and decode to other bytes", "sealcodec")
seed("s02", "C03", [(SP, "  uint32_t bits_left = ele_size * 8;", "  uint16_t bits_left = ele_size * 8;"), (SP, "uint32_t rest = min(logt, bits_left);", "uint32_t rest = min<uint32_t>(logt, bits_left);")],
     "a row of 8192 bytes or more", "the decoder loses count of the bits left in the row and returns wrong bytes", "sealcodec")
seed("s03", "C04", [("psi/utils/bucket.cc", "(items_size_list[idx] + self_bucket_size - 1) / self_bucket_size;", "std::min(items_size_list[idx], self_items_count) / self_bucket_size + 1;")],
     "a peer with more items than this party", "parties compute different bucket counts", "buckets")
seed("s04", "C05", [(SP, "  return ceil((double)ele_num / elements_per_plaintext);", "  return ceil((float)ele_num / elements_per_plaintext);")],
     "more than 2^24 rows", "too few plaintexts are allocated for the rows", "sealaddr")
seed("s05", "C06", [(A + "spiral/util.cc", "    uint64_t src = l;\n", "    uint8_t src = l;\n")], "coefficients of more than eight bits", "bits of wide coefficients are shifted out of the decoder's buffer", "spiralcodec", count=2)
seed("s06", "C07", [(A + "spiral/arith/arith.h", "  return res >= modulus ? res - modulus : res;", "  return res > modulus ? res - modulus : res;")],
     "a multiple of the modulus whose quotient estimate is one short", "the reduction returns the modulus itself instead of zero", "barrett")
seed("s07", "C07", [(A + "spiral/arith/arith.h", "  tmp3 = tmp2[1] + seal::util::add_uint64(tmp2[0], carry, &tmp1);", "  seal::util::add_uint64(tmp2[0], carry, &tmp1);\n  tmp3 = tmp2[1];")],
     "an operand for which the inner addition carries", "the 128-bit reduction is off by one multiple of 2^64/q and leaves the range", "barrett")
seed("s08", "C08", [(A + "rr22/okvs/galois128.cc", "  for (size_t i = 0; i < 128; ++i) {\n    if ((b >> i) & mask1) {", "  for (size_t i = 0; i < 127; ++i) {\n    if ((b >> i) & mask1) {")],
     "a second operand with its top bit set, on the portable path", "the top bit of the second operand is ignored, so the two paths disagree", "gf128")
seed("s09", "C12", [(A + "pir_interface/pir_db.cc", "  size_t end_col = std::min(start_col + partition_byte_len, row_byte_len_);", "  size_t end_col = start_col + row_byte_len_ % partition_byte_len;")],
     "a row length that is a multiple of the partition length", "the last partition is all zero", "pirdb")
seed("s10", "C12", [(A + "pir_interface/pir_db.cc", "  for (const auto& tmp : data) {\n    YACL_ENFORCE_EQ(tmp.size(), m);\n  }", "  YACL_ENFORCE_EQ(data.back().size(), m);")],
     "a middle partition of another length", "partitions of mixed lengths are combined into a wrong row", "pirdb")
ECS = "psi/utils/ec_point_store.cc"
seed("s11", "C01", [(ECS, "    std::unordered_set<std::string> peer_set;\n", "    if (self_results.empty() || peer_results.empty()) {\n      break;\n    }\n    std::unordered_set<std::string> peer_set;\n")],
     "a bin that is empty on one side, followed by one that is not", "matches in later bins are lost", "indices")
seed("s12", "C01", [(ECS, "        index_writer->WriteCache(item.index, peer->extra_dup_cnt);", "        index_writer->WriteCache(item.index, std::max(peer->extra_dup_cnt, item.extra_dup_cnt));")],
     "an item with more duplicates on this side than at the peer", "the recorded peer duplicate count is wrong", "indices")
CK = "psi/utils/cuckoo_index.cc"
seed("s13", "C02", [(CK, "  for (uint64_t i = 0; i < options_.num_hash; i++) {\n    auto target", "  for (uint64_t i = bin.HashIdx(); i < options_.num_hash; i++) {\n    auto target")],
     "an input two of whose hash functions name the same bin, placed there by the larger one", "the reported hash function is not the least that maps the input to the bin", "cuckoo")
seed("s14", "C02", [(CK, "(evicted_bin.HashIdx() + 1) % options_.num_hash);", "(evicted_bin.HashIdx() + 1) % (options_.num_hash > 1 ? options_.num_hash : 2));")],
     "a single hash function and two inputs with the same bin", "an evicted input is placed by a hash function that is not in use", "cuckoo")
seed("s15", "C02", [(CK, "  const size_t input_offset = hashes_.size();", "  const uint16_t input_offset = hashes_.size();")],
     "a second insertion after more than 65535 inputs", "later inputs are numbered like earlier ones: they are missing from the index while earlier ones appear twice", "cuckoo")
PH = A + "rr22/okvs/paxos_hash"
seed("s16", "C09", [(PH + ".cc", "        if (*iter <= col_idx) {", "        if (*iter < col_idx) {")],
     "a weight other than three and a position drawn twice", "a row names the same position twice", "paxoshash")
seed("s17", "C09", [(PH + ".h", "                    const uint64_t& mod_val) {", "                    const uint32_t& mod_val) {")],
     "AVX2, weight three and more than 2^32 positions", "rows built in a batch differ from rows built one at a time", "paxoshash")
seed("s18", "C09", [(A + "rr22/okvs/aes_crhash.cc", "ciphertext[i] = enc_outputs[j] ^ plaintext[i];", "ciphertext[i] = enc_outputs[j] ^ plaintext[j];")],
     "a batch of more than eight blocks whose number is no multiple of eight", "the last blocks of the batch are combined with the first ones", "paxoshash", count=2)
NP = "psi/legacy/nparty_psi.cc"
seed("s19", "C16", [(NP, "  size_t level_num = std::log2(absl::bit_ceil(party_size_rank_vec.size()));", "  size_t level_num = std::log2(party_size_rank_vec.size()) + party_size_rank_vec.size() % 2;")],
     "six or ten parties", "the last round is not run and the receiver gets an empty result", "nparty")
seed("s20", "C16", [(NP, "                             : opts.link_ctx->NextRank();", "                             : opts.link_ctx->NextRank(target_rank);")],
     "the KKRT protocol and a pair whose receiver has an even rank", "the two parties of a pair name different receivers", "nparty")
seed("s21", "C16", [(NP, "      *peer_rank = party_size_rank_vec[peer_idx].second;\n      *target_rank = party_size_rank_vec[idx].second;", "      *peer_rank = party_size_rank_vec[peer_idx].second;\n      *target_rank = party_size_rank_vec[std::min(idx, party_size_rank_vec[idx].first)].second;")],
     "a party in the front half of the list announced fewer items than its position", "the two parties of a pair disagree on who gets the result", "nparty")
BP = "psi/utils/batch_provider_impl.cc"
seed("s22", "C18", [(BP, "      base_index_ += push_items;", "      base_index_ += n_items;")],
     "a batch that spans two source batches", "batch indices skip values from then on", "batchprov")
seed("s23", "C18", [(BP, "      shuffle_base_index_ += buffer_.items.size();\n      buffer_ = ReadAndShuffle();", "      buffer_ = ReadAndShuffle();\n      shuffle_base_index_ += buffer_.items.size();")],
     "source batches of different sizes", "shuffled indices point at rows of other items", "batchprov")
seed("s24", "C18", [(BP, "  auto batch = ReadNextImpl(size);", "  auto batch = ReadNextImpl(std::min(size, batch_size_));")],
     "ReadNext asked for more than the configured batch size", "a short read that is not the last one", "batchprov")
