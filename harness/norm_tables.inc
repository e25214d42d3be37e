// replacement and deletion tables of the normalization rule (recorded from the pinned tree)
const std::map<std::string, std::string> SMALL2BIG = {{"ぁ", "あ"}, {"ぃ", "い"}, {"ぅ", "う"}, {"ぇ", "え"}, {"ぉ", "お"}, {"ゎ", "わ"}, {"ヶ", "ケ"}, {"ケ", "ヶ"}, };
const std::map<std::string, std::string> PROLONG = {{"か", "あ"}, {"が", "あ"}, {"ば", "あ"}, {"ま", "あ"}, {"ゃ", "あ"}, {"い", "い"}, {"き", "い"}, {"し", "い"}, {"ち", "い"}, {"に", "い"}, {"ひ", "い"}, {"じ", "い"}, {"け", "い"}, {"せ", "い"}, {"へ", "い"}, {"め", "い"}, {"れ", "い"}, {"げ", "い"}, {"ぜ", "い"}, {"で", "い"}, {"べ", "い"}, {"ぺ", "い"}, {"く", "う"}, {"す", "う"}, {"つ", "う"}, {"ふ", "う"}, {"ゆ", "う"}, {"ぐ", "う"}, {"ず", "う"}, {"ぷ", "う"}, {"ゅ", "う"}, {"お", "う"}, {"こ", "う"}, {"そ", "う"}, {"と", "う"}, {"の", "う"}, {"ほ", "う"}, {"も", "う"}, {"よ", "う"}, {"ろ", "う"}, {"ご", "う"}, {"ぞ", "う"}, {"ど", "う"}, {"ぼ", "う"}, {"ぽ", "う"}, {"ょ", "う"}, {"え", "い"}, {"ね", "い"}, };
const std::map<std::string, std::string> PROLONG_E = {{"え", "え"}, {"け", "え"}, {"げ", "え"}, {"せ", "え"}, {"ぜ", "え"}, {"て", "え"}, {"で", "え"}, {"ね", "え"}, {"へ", "え"}, {"べ", "え"}, {"め", "え"}, {"れ", "え"}, };
const std::map<std::string, std::string> SMALL_AFTER = {{"か", "ぁ"}, {"さ", "ぁ"}, {"た", "ぁ"}, {"な", "ぁ"}, {"は", "ぁ"}, {"ま", "ぁ"}, {"や", "ぁ"}, {"ら", "ぁ"}, {"わ", "ぁ"}, {"が", "ぁ"}, {"ざ", "ぁ"}, {"だ", "ぁ"}, {"ば", "ぁ"}, {"ぱ", "ぁ"}, {"い", "ぃ"}, {"し", "ぃ"}, {"に", "ぃ"}, {"り", "ぃ"}, {"ぎ", "ぃ"}, {"じ", "ぃ"}, {"ね", "ぃ"}, {"れ", "ぃ"}, {"ぜ", "ぃ"}, {"う", "ぅ"}, {"く", "ぅ"}, {"す", "ぅ"}, {"ふ", "ぅ"}, {"む", "ぅ"}, {"る", "ぅ"}, {"よ", "ぅ"}, {"け", "ぇ"}, {"せ", "ぇ"}, {"て", "ぇ"}, {"め", "ぇ"}, {"で", "ぇ"}, {"こ", "ぉ"}, {"そ", "ぉ"}, {"の", "ぉ"}, {"も", "ぉ"}, {"ろ", "ぉ"}, {"ぞ", "ぉ"}, {"ど", "ぉ"}, };
