------------------------------ MODULE Encodings ------------------------------
(* Generated by tools/gen_encodings.py. What bytes denote in each encoding.   *)
(* ByteTab: the characters of the bytes 128..255, 0 where nothing is promised. *)
EXTENDS Chars

Utf8Names == {S("utf8"), S("utf-8")}

ByteTab ==
     (S("cp437") :> <<199, 252, 233, 226, 228, 224, 229, 231, 234, 235, 232, 239, 238, 236, 196, 197, 201, 230, 198, 244, 246, 242, 251, 249, 255, 214, 220, 162, 163, 165, 8359, 402, 225, 237, 243, 250, 241, 209, 170, 186, 191, 8976, 172, 189, 188, 161, 171, 187, 9617, 9618, 9619, 9474, 9508, 9569, 9570, 9558, 9557, 9571, 9553, 9559, 9565, 9564, 9563, 9488, 9492, 9524, 9516, 9500, 9472, 9532, 9566, 9567, 9562, 9556, 9577, 9574, 9568, 9552, 9580, 9575, 9576, 9572, 9573, 9561, 9560, 9554, 9555, 9579, 9578, 9496, 9484, 9608, 9604, 9612, 9616, 9600, 945, 223, 915, 960, 931, 963, 181, 964, 934, 920, 937, 948, 8734, 966, 949, 8745, 8801, 177, 8805, 8804, 8992, 8993, 247, 8776, 176, 8729, 183, 8730, 8319, 178, 9632, 160>>)
  @@ (S("cp866") :> <<1040, 1041, 1042, 1043, 1044, 1045, 1046, 1047, 1048, 1049, 1050, 1051, 1052, 1053, 1054, 1055, 1056, 1057, 1058, 1059, 1060, 1061, 1062, 1063, 1064, 1065, 1066, 1067, 1068, 1069, 1070, 1071, 1072, 1073, 1074, 1075, 1076, 1077, 1078, 1079, 1080, 1081, 1082, 1083, 1084, 1085, 1086, 1087, 9617, 9618, 9619, 9474, 9508, 9569, 9570, 9558, 9557, 9571, 9553, 9559, 9565, 9564, 9563, 9488, 9492, 9524, 9516, 9500, 9472, 9532, 9566, 9567, 9562, 9556, 9577, 9574, 9568, 9552, 9580, 9575, 9576, 9572, 9573, 9561, 9560, 9554, 9555, 9579, 9578, 9496, 9484, 9608, 9604, 9612, 9616, 9600, 1088, 1089, 1090, 1091, 1092, 1093, 1094, 1095, 1096, 1097, 1098, 1099, 1100, 1101, 1102, 1103, 1025, 1105, 1028, 1108, 1031, 1111, 1038, 1118, 176, 8729, 183, 8730, 8470, 164, 9632, 160>>)
  @@ (S("iso-8859-1") :> <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255>>)
  @@ (S("iso-8859-10") :> <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 160, 260, 274, 290, 298, 296, 310, 167, 315, 272, 352, 358, 381, 173, 362, 330, 176, 261, 275, 291, 299, 297, 311, 183, 316, 273, 353, 359, 382, 8213, 363, 331, 256, 193, 194, 195, 196, 197, 198, 302, 268, 201, 280, 203, 278, 205, 206, 207, 208, 325, 332, 211, 212, 213, 214, 360, 216, 370, 218, 219, 220, 221, 222, 223, 257, 225, 226, 227, 228, 229, 230, 303, 269, 233, 281, 235, 279, 237, 238, 239, 240, 326, 333, 243, 244, 245, 246, 361, 248, 371, 250, 251, 252, 253, 254, 312>>)
  @@ (S("iso-8859-13") :> <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 160, 8221, 162, 163, 164, 8222, 166, 167, 216, 169, 342, 171, 172, 173, 174, 198, 176, 177, 178, 179, 8220, 181, 182, 183, 248, 185, 343, 187, 188, 189, 190, 230, 260, 302, 256, 262, 196, 197, 280, 274, 268, 201, 377, 278, 290, 310, 298, 315, 352, 323, 325, 211, 332, 213, 214, 215, 370, 321, 346, 362, 220, 379, 381, 223, 261, 303, 257, 263, 228, 229, 281, 275, 269, 233, 378, 279, 291, 311, 299, 316, 353, 324, 326, 243, 333, 245, 246, 247, 371, 322, 347, 363, 252, 380, 382, 8217>>)
  @@ (S("iso-8859-14") :> <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 160, 7682, 7683, 163, 266, 267, 7690, 167, 7808, 169, 7810, 7691, 7922, 173, 174, 376, 7710, 7711, 288, 289, 7744, 7745, 182, 7766, 7809, 7767, 7811, 7776, 7923, 7812, 7813, 7777, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 372, 209, 210, 211, 212, 213, 214, 7786, 216, 217, 218, 219, 220, 221, 374, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 373, 241, 242, 243, 244, 245, 246, 7787, 248, 249, 250, 251, 252, 253, 375, 255>>)
  @@ (S("iso-8859-15") :> <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 160, 161, 162, 163, 8364, 165, 352, 167, 353, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 381, 181, 182, 183, 382, 185, 186, 187, 338, 339, 376, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255>>)
  @@ (S("iso-8859-16") :> <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 160, 260, 261, 321, 8364, 8222, 352, 167, 353, 169, 536, 171, 377, 173, 378, 379, 176, 177, 268, 322, 381, 8221, 182, 183, 382, 269, 537, 187, 338, 339, 376, 380, 192, 193, 194, 258, 196, 262, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 272, 323, 210, 211, 212, 336, 214, 346, 368, 217, 218, 219, 220, 280, 538, 223, 224, 225, 226, 259, 228, 263, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 273, 324, 242, 243, 244, 337, 246, 347, 369, 249, 250, 251, 252, 281, 539, 255>>)
  @@ (S("iso-8859-2") :> <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 160, 260, 728, 321, 164, 317, 346, 167, 168, 352, 350, 356, 377, 173, 381, 379, 176, 261, 731, 322, 180, 318, 347, 711, 184, 353, 351, 357, 378, 733, 382, 380, 340, 193, 194, 258, 196, 313, 262, 199, 268, 201, 280, 203, 282, 205, 206, 270, 272, 323, 327, 211, 212, 336, 214, 215, 344, 366, 218, 368, 220, 221, 354, 223, 341, 225, 226, 259, 228, 314, 263, 231, 269, 233, 281, 235, 283, 237, 238, 271, 273, 324, 328, 243, 244, 337, 246, 247, 345, 367, 250, 369, 252, 253, 355, 729>>)
  @@ (S("iso-8859-3") :> <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 160, 294, 728, 163, 164, 0, 292, 167, 168, 304, 350, 286, 308, 173, 0, 379, 176, 295, 178, 179, 180, 181, 293, 183, 184, 305, 351, 287, 309, 189, 0, 380, 192, 193, 194, 0, 196, 266, 264, 199, 200, 201, 202, 203, 204, 205, 206, 207, 0, 209, 210, 211, 212, 288, 214, 215, 284, 217, 218, 219, 220, 364, 348, 223, 224, 225, 226, 0, 228, 267, 265, 231, 232, 233, 234, 235, 236, 237, 238, 239, 0, 241, 242, 243, 244, 289, 246, 247, 285, 249, 250, 251, 252, 365, 349, 729>>)
  @@ (S("iso-8859-4") :> <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 160, 260, 312, 342, 164, 296, 315, 167, 168, 352, 274, 290, 358, 173, 381, 175, 176, 261, 731, 343, 180, 297, 316, 711, 184, 353, 275, 291, 359, 330, 382, 331, 256, 193, 194, 195, 196, 197, 198, 302, 268, 201, 280, 203, 278, 205, 206, 298, 272, 325, 332, 310, 212, 213, 214, 215, 216, 370, 218, 219, 220, 360, 362, 223, 257, 225, 226, 227, 228, 229, 230, 303, 269, 233, 281, 235, 279, 237, 238, 299, 273, 326, 333, 311, 244, 245, 246, 247, 248, 371, 250, 251, 252, 361, 363, 729>>)
  @@ (S("iso-8859-5") :> <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 160, 1025, 1026, 1027, 1028, 1029, 1030, 1031, 1032, 1033, 1034, 1035, 1036, 173, 1038, 1039, 1040, 1041, 1042, 1043, 1044, 1045, 1046, 1047, 1048, 1049, 1050, 1051, 1052, 1053, 1054, 1055, 1056, 1057, 1058, 1059, 1060, 1061, 1062, 1063, 1064, 1065, 1066, 1067, 1068, 1069, 1070, 1071, 1072, 1073, 1074, 1075, 1076, 1077, 1078, 1079, 1080, 1081, 1082, 1083, 1084, 1085, 1086, 1087, 1088, 1089, 1090, 1091, 1092, 1093, 1094, 1095, 1096, 1097, 1098, 1099, 1100, 1101, 1102, 1103, 8470, 1105, 1106, 1107, 1108, 1109, 1110, 1111, 1112, 1113, 1114, 1115, 1116, 167, 1118, 1119>>)
  @@ (S("iso-8859-6") :> <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 160, 0, 0, 0, 164, 0, 0, 0, 0, 0, 0, 0, 1548, 173, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1563, 0, 0, 0, 1567, 0, 1569, 1570, 1571, 1572, 1573, 1574, 1575, 1576, 1577, 1578, 1579, 1580, 1581, 1582, 1583, 1584, 1585, 1586, 1587, 1588, 1589, 1590, 1591, 1592, 1593, 1594, 0, 0, 0, 0, 0, 1600, 1601, 1602, 1603, 1604, 1605, 1606, 1607, 1608, 1609, 1610, 1611, 1612, 1613, 1614, 1615, 1616, 1617, 1618, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>)
  @@ (S("iso-8859-7") :> <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 160, 8216, 8217, 163, 8364, 8367, 166, 167, 168, 169, 890, 171, 172, 173, 0, 8213, 176, 177, 178, 179, 900, 901, 902, 183, 904, 905, 906, 187, 908, 189, 910, 911, 912, 913, 914, 915, 916, 917, 918, 919, 920, 921, 922, 923, 924, 925, 926, 927, 928, 929, 0, 931, 932, 933, 934, 935, 936, 937, 938, 939, 940, 941, 942, 943, 944, 945, 946, 947, 948, 949, 950, 951, 952, 953, 954, 955, 956, 957, 958, 959, 960, 961, 962, 963, 964, 965, 966, 967, 968, 969, 970, 971, 972, 973, 974, 0>>)
  @@ (S("iso-8859-8") :> <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 160, 0, 162, 163, 164, 165, 166, 167, 168, 169, 215, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 247, 187, 188, 189, 190, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 8215, 1488, 1489, 1490, 1491, 1492, 1493, 1494, 1495, 1496, 1497, 1498, 1499, 1500, 1501, 1502, 1503, 1504, 1505, 1506, 1507, 1508, 1509, 1510, 1511, 1512, 1513, 1514, 0, 0, 8206, 8207, 0>>)
  @@ (S("koi8r") :> <<9472, 9474, 9484, 9488, 9492, 9496, 9500, 9508, 9516, 9524, 9532, 9600, 9604, 9608, 9612, 9616, 9617, 9618, 9619, 8992, 9632, 8729, 8730, 8776, 8804, 8805, 160, 8993, 176, 178, 183, 247, 9552, 9553, 9554, 1105, 9555, 9556, 9557, 9558, 9559, 9560, 9561, 9562, 9563, 9564, 9565, 9566, 9567, 9568, 9569, 1025, 9570, 9571, 9572, 9573, 9574, 9575, 9576, 9577, 9578, 9579, 9580, 169, 1102, 1072, 1073, 1094, 1076, 1077, 1092, 1075, 1093, 1080, 1081, 1082, 1083, 1084, 1085, 1086, 1087, 1103, 1088, 1089, 1090, 1091, 1078, 1074, 1100, 1099, 1079, 1096, 1101, 1097, 1095, 1098, 1070, 1040, 1041, 1062, 1044, 1045, 1060, 1043, 1061, 1048, 1049, 1050, 1051, 1052, 1053, 1054, 1055, 1071, 1056, 1057, 1058, 1059, 1046, 1042, 1068, 1067, 1047, 1064, 1069, 1065, 1063, 1066>>)
  @@ (S("koir8u") :> <<9472, 9474, 9484, 9488, 9492, 9496, 9500, 9508, 9516, 9524, 9532, 9600, 9604, 9608, 9612, 9616, 9617, 9618, 9619, 8992, 9632, 8729, 8730, 8776, 8804, 8805, 160, 8993, 176, 178, 183, 247, 9552, 9553, 9554, 1105, 1108, 9556, 1110, 1111, 9559, 9560, 9561, 9562, 9563, 1169, 0, 9566, 9567, 9568, 9569, 1025, 1028, 9571, 1030, 1031, 9574, 9575, 9576, 9577, 9578, 1168, 0, 169, 1102, 1072, 1073, 1094, 1076, 1077, 1092, 1075, 1093, 1080, 1081, 1082, 1083, 1084, 1085, 1086, 1087, 1103, 1088, 1089, 1090, 1091, 1078, 1074, 1100, 1099, 1079, 1096, 1101, 1097, 1095, 1098, 1070, 1040, 1041, 1062, 1044, 1045, 1060, 1043, 1061, 1048, 1049, 1050, 1051, 1052, 1053, 1054, 1055, 1071, 1056, 1057, 1058, 1059, 1046, 1042, 1068, 1067, 1047, 1064, 1069, 1065, 1063, 1066>>)
  @@ (S("macintosh") :> <<196, 197, 199, 201, 209, 214, 220, 225, 224, 226, 228, 227, 229, 231, 233, 232, 234, 235, 237, 236, 238, 239, 241, 243, 242, 244, 246, 245, 250, 249, 251, 252, 8224, 176, 162, 163, 167, 8226, 182, 223, 174, 169, 8482, 180, 168, 8800, 198, 216, 8734, 177, 8804, 8805, 165, 181, 8706, 8721, 8719, 960, 8747, 170, 186, 937, 230, 248, 191, 161, 172, 8730, 402, 8776, 8710, 171, 187, 8230, 160, 192, 195, 213, 338, 339, 8211, 8212, 8220, 8221, 8216, 8217, 247, 9674, 255, 376, 8260, 8364, 8249, 8250, 64257, 64258, 8225, 183, 8218, 8222, 8240, 194, 202, 193, 203, 200, 205, 206, 207, 204, 211, 212, 0, 210, 218, 219, 217, 305, 710, 732, 175, 728, 729, 730, 184, 733, 731, 711>>)
  @@ (S("macintoshcyrillic") :> <<1040, 1041, 1042, 1043, 1044, 1045, 1046, 1047, 1048, 1049, 1050, 1051, 1052, 1053, 1054, 1055, 1056, 1057, 1058, 1059, 1060, 1061, 1062, 1063, 1064, 1065, 1066, 1067, 1068, 1069, 1070, 1071, 8224, 176, 1168, 163, 167, 8226, 182, 1030, 174, 169, 8482, 1026, 1106, 8800, 1027, 1107, 8734, 177, 8804, 8805, 1110, 181, 1169, 1032, 1028, 1108, 1031, 1111, 1033, 1113, 1034, 1114, 1112, 1029, 172, 8730, 402, 8776, 8710, 171, 187, 8230, 160, 1035, 1115, 1036, 1116, 1109, 8211, 8212, 8220, 8221, 8216, 8217, 247, 8222, 1038, 1118, 1039, 1119, 8470, 1025, 1105, 1103, 1072, 1073, 1074, 1075, 1076, 1077, 1078, 1079, 1080, 1081, 1082, 1083, 1084, 1085, 1086, 1087, 1088, 1089, 1090, 1091, 1092, 1093, 1094, 1095, 1096, 1097, 1098, 1099, 1100, 1101, 1102, 8364>>)
  @@ (S("windows1250") :> <<8364, 0, 8218, 0, 8222, 8230, 8224, 8225, 0, 8240, 352, 8249, 346, 356, 381, 377, 0, 8216, 8217, 8220, 8221, 8226, 8211, 8212, 0, 8482, 353, 8250, 347, 357, 382, 378, 160, 711, 728, 321, 164, 260, 166, 167, 168, 169, 350, 171, 172, 173, 174, 379, 176, 177, 731, 322, 180, 181, 182, 183, 184, 261, 351, 187, 317, 733, 318, 380, 340, 193, 194, 258, 196, 313, 262, 199, 268, 201, 280, 203, 282, 205, 206, 270, 272, 323, 327, 211, 212, 336, 214, 215, 344, 366, 218, 368, 220, 221, 354, 223, 341, 225, 226, 259, 228, 314, 263, 231, 269, 233, 281, 235, 283, 237, 238, 271, 273, 324, 328, 243, 244, 337, 246, 247, 345, 367, 250, 369, 252, 253, 355, 729>>)
  @@ (S("windows1251") :> <<1026, 1027, 8218, 1107, 8222, 8230, 8224, 8225, 8364, 8240, 1033, 8249, 1034, 1036, 1035, 1039, 1106, 8216, 8217, 8220, 8221, 8226, 8211, 8212, 0, 8482, 1113, 8250, 1114, 1116, 1115, 1119, 160, 1038, 1118, 1032, 164, 1168, 166, 167, 1025, 169, 1028, 171, 172, 173, 174, 1031, 176, 177, 1030, 1110, 1169, 181, 182, 183, 1105, 8470, 1108, 187, 1112, 1029, 1109, 1111, 1040, 1041, 1042, 1043, 1044, 1045, 1046, 1047, 1048, 1049, 1050, 1051, 1052, 1053, 1054, 1055, 1056, 1057, 1058, 1059, 1060, 1061, 1062, 1063, 1064, 1065, 1066, 1067, 1068, 1069, 1070, 1071, 1072, 1073, 1074, 1075, 1076, 1077, 1078, 1079, 1080, 1081, 1082, 1083, 1084, 1085, 1086, 1087, 1088, 1089, 1090, 1091, 1092, 1093, 1094, 1095, 1096, 1097, 1098, 1099, 1100, 1101, 1102, 1103>>)
  @@ (S("windows1252") :> <<8364, 0, 8218, 402, 8222, 8230, 8224, 8225, 710, 8240, 352, 8249, 338, 0, 381, 0, 0, 8216, 8217, 8220, 8221, 8226, 8211, 8212, 732, 8482, 353, 8250, 339, 0, 382, 376, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255>>)
  @@ (S("windows1253") :> <<8364, 0, 8218, 402, 8222, 8230, 8224, 8225, 0, 8240, 0, 8249, 0, 0, 0, 0, 0, 8216, 8217, 8220, 8221, 8226, 8211, 8212, 0, 8482, 0, 8250, 0, 0, 0, 0, 160, 901, 902, 163, 164, 165, 166, 167, 168, 169, 0, 171, 172, 173, 174, 8213, 176, 177, 178, 179, 900, 181, 182, 183, 904, 905, 906, 187, 908, 189, 910, 911, 912, 913, 914, 915, 916, 917, 918, 919, 920, 921, 922, 923, 924, 925, 926, 927, 928, 929, 0, 931, 932, 933, 934, 935, 936, 937, 938, 939, 940, 941, 942, 943, 944, 945, 946, 947, 948, 949, 950, 951, 952, 953, 954, 955, 956, 957, 958, 959, 960, 961, 962, 963, 964, 965, 966, 967, 968, 969, 970, 971, 972, 973, 974, 0>>)
  @@ (S("windows1254") :> <<8364, 0, 8218, 402, 8222, 8230, 8224, 8225, 710, 8240, 352, 8249, 338, 0, 0, 0, 0, 8216, 8217, 8220, 8221, 8226, 8211, 8212, 732, 8482, 353, 8250, 339, 0, 0, 376, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 286, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 304, 350, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 287, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 305, 351, 255>>)
  @@ (S("windows1255") :> <<8364, 0, 8218, 402, 8222, 8230, 8224, 8225, 710, 8240, 0, 8249, 0, 0, 0, 0, 0, 8216, 8217, 8220, 8221, 8226, 8211, 8212, 732, 8482, 0, 8250, 0, 0, 0, 0, 160, 161, 162, 163, 8362, 165, 166, 167, 168, 169, 215, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 247, 187, 188, 189, 190, 191, 1456, 1457, 1458, 1459, 1460, 1461, 1462, 1463, 1464, 1465, 0, 1467, 1468, 1469, 1470, 1471, 1472, 1473, 1474, 1475, 1520, 1521, 1522, 1523, 1524, 0, 0, 0, 0, 0, 0, 0, 1488, 1489, 1490, 1491, 1492, 1493, 1494, 1495, 1496, 1497, 1498, 1499, 1500, 1501, 1502, 1503, 1504, 1505, 1506, 1507, 1508, 1509, 1510, 1511, 1512, 1513, 1514, 0, 0, 8206, 8207, 0>>)
  @@ (S("windows1256") :> <<8364, 1662, 8218, 402, 8222, 8230, 8224, 8225, 710, 8240, 1657, 8249, 338, 1670, 1688, 1672, 1711, 8216, 8217, 8220, 8221, 8226, 8211, 8212, 1705, 8482, 1681, 8250, 339, 8204, 8205, 1722, 160, 1548, 162, 163, 164, 165, 166, 167, 168, 169, 1726, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 1563, 187, 188, 189, 190, 1567, 1729, 1569, 1570, 1571, 1572, 1573, 1574, 1575, 1576, 1577, 1578, 1579, 1580, 1581, 1582, 1583, 1584, 1585, 1586, 1587, 1588, 1589, 1590, 215, 1591, 1592, 1593, 1594, 1600, 1601, 1602, 1603, 224, 1604, 226, 1605, 1606, 1607, 1608, 231, 232, 233, 234, 235, 1609, 1610, 238, 239, 1611, 1612, 1613, 1614, 244, 1615, 1616, 247, 1617, 249, 1618, 251, 252, 8206, 8207, 1746>>)
  @@ (S("windows1257") :> <<8364, 0, 8218, 0, 8222, 8230, 8224, 8225, 0, 8240, 0, 8249, 0, 168, 711, 184, 0, 8216, 8217, 8220, 8221, 8226, 8211, 8212, 0, 8482, 0, 8250, 0, 175, 731, 0, 160, 0, 162, 163, 164, 0, 166, 167, 216, 169, 342, 171, 172, 173, 174, 198, 176, 177, 178, 179, 180, 181, 182, 183, 248, 185, 343, 187, 188, 189, 190, 230, 260, 302, 256, 262, 196, 197, 280, 274, 268, 201, 377, 278, 290, 310, 298, 315, 352, 323, 325, 211, 332, 213, 214, 215, 370, 321, 346, 362, 220, 379, 381, 223, 261, 303, 257, 263, 228, 229, 281, 275, 269, 233, 378, 279, 291, 311, 299, 316, 353, 324, 326, 243, 333, 245, 246, 247, 371, 322, 347, 363, 252, 380, 382, 729>>)
  @@ (S("windows1258") :> <<8364, 0, 8218, 402, 8222, 8230, 8224, 8225, 710, 8240, 0, 8249, 338, 0, 0, 0, 0, 8216, 8217, 8220, 8221, 8226, 8211, 8212, 732, 8482, 0, 8250, 339, 0, 0, 376, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 258, 196, 197, 198, 199, 200, 201, 202, 203, 768, 205, 206, 207, 272, 209, 777, 211, 212, 416, 214, 215, 216, 217, 218, 219, 220, 431, 771, 223, 224, 225, 226, 259, 228, 229, 230, 231, 232, 233, 234, 235, 769, 237, 238, 239, 273, 241, 803, 243, 244, 417, 246, 247, 248, 249, 250, 251, 252, 432, 8363, 255>>)
  @@ (S("windows874") :> <<8364, 0, 0, 0, 0, 8230, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 8216, 8217, 8220, 8221, 8226, 8211, 8212, 0, 0, 0, 0, 0, 0, 0, 0, 160, 3585, 3586, 3587, 3588, 3589, 3590, 3591, 3592, 3593, 3594, 3595, 3596, 3597, 3598, 3599, 3600, 3601, 3602, 3603, 3604, 3605, 3606, 3607, 3608, 3609, 3610, 3611, 3612, 3613, 3614, 3615, 3616, 3617, 3618, 3619, 3620, 3621, 3622, 3623, 3624, 3625, 3626, 3627, 3628, 3629, 3630, 3631, 3632, 3633, 3634, 3635, 3636, 3637, 3638, 3639, 3640, 3641, 3642, 0, 0, 0, 0, 3647, 3648, 3649, 3650, 3651, 3652, 3653, 3654, 3655, 3656, 3657, 3658, 3659, 3660, 3661, 3662, 3663, 3664, 3665, 3666, 3667, 3668, 3669, 3670, 3671, 3672, 3673, 3674, 3675, 0, 0, 0, 0>>)

EucJp == (<<164, 162>> :> 12354) @@ (<<164, 164>> :> 12356) @@ (<<164, 166>> :> 12358) @@ (<<164, 168>> :> 12360) @@ (<<164, 170>> :> 12362) @@ (<<164, 171>> :> 12363) @@ (<<164, 173>> :> 12365) @@ (<<164, 175>> :> 12367) @@ (<<164, 177>> :> 12369) @@ (<<164, 179>> :> 12371) @@ (<<164, 181>> :> 12373) @@ (<<164, 183>> :> 12375) @@ (<<164, 185>> :> 12377) @@ (<<164, 187>> :> 12379) @@ (<<164, 189>> :> 12381) @@ (<<164, 191>> :> 12383) @@ (<<164, 193>> :> 12385) @@ (<<164, 196>> :> 12388) @@ (<<164, 198>> :> 12390) @@ (<<164, 200>> :> 12392) @@ (<<164, 202>> :> 12394) @@ (<<164, 203>> :> 12395) @@ (<<164, 204>> :> 12396) @@ (<<164, 205>> :> 12397) @@ (<<164, 206>> :> 12398) @@ (<<164, 207>> :> 12399) @@ (<<164, 210>> :> 12402) @@ (<<164, 213>> :> 12405) @@ (<<164, 216>> :> 12408) @@ (<<164, 219>> :> 12411) @@ (<<164, 222>> :> 12414) @@ (<<164, 223>> :> 12415) @@ (<<164, 224>> :> 12416) @@ (<<164, 225>> :> 12417) @@ (<<164, 226>> :> 12418) @@ (<<164, 228>> :> 12420) @@ (<<164, 230>> :> 12422) @@ (<<164, 232>> :> 12424) @@ (<<164, 233>> :> 12425) @@ (<<164, 234>> :> 12426) @@ (<<164, 235>> :> 12427) @@ (<<164, 236>> :> 12428) @@ (<<164, 237>> :> 12429) @@ (<<164, 239>> :> 12431) @@ (<<164, 242>> :> 12434) @@ (<<164, 243>> :> 12435) @@ (<<165, 162>> :> 12450) @@ (<<165, 164>> :> 12452) @@ (<<165, 166>> :> 12454) @@ (<<165, 168>> :> 12456) @@ (<<165, 170>> :> 12458) @@ (<<165, 171>> :> 12459) @@ (<<165, 173>> :> 12461) @@ (<<165, 175>> :> 12463) @@ (<<165, 177>> :> 12465) @@ (<<165, 179>> :> 12467) @@ (<<165, 181>> :> 12469) @@ (<<165, 183>> :> 12471) @@ (<<165, 185>> :> 12473) @@ (<<165, 187>> :> 12475) @@ (<<165, 189>> :> 12477) @@ (<<165, 191>> :> 12479) @@ (<<165, 193>> :> 12481) @@ (<<165, 196>> :> 12484) @@ (<<165, 198>> :> 12486) @@ (<<165, 200>> :> 12488) @@ (<<165, 202>> :> 12490) @@ (<<165, 203>> :> 12491) @@ (<<165, 204>> :> 12492) @@ (<<165, 205>> :> 12493) @@ (<<165, 206>> :> 12494) @@ (<<165, 207>> :> 12495) @@ (<<165, 210>> :> 12498) @@ (<<165, 213>> :> 12501) @@ (<<165, 216>> :> 12504) @@ (<<165, 219>> :> 12507) @@ (<<165, 222>> :> 12510) @@ (<<165, 223>> :> 12511) @@ (<<165, 224>> :> 12512) @@ (<<165, 225>> :> 12513) @@ (<<165, 226>> :> 12514) @@ (<<165, 228>> :> 12516) @@ (<<165, 230>> :> 12518) @@ (<<165, 232>> :> 12520) @@ (<<165, 233>> :> 12521) @@ (<<165, 234>> :> 12522) @@ (<<165, 235>> :> 12523) @@ (<<165, 236>> :> 12524) @@ (<<165, 237>> :> 12525) @@ (<<165, 239>> :> 12527) @@ (<<165, 242>> :> 12530) @@ (<<165, 243>> :> 12531) @@ (<<176, 161>> :> 20124) @@ (<<176, 165>> :> 21696) @@ (<<176, 166>> :> 24859) @@ (<<176, 173>> :> 24746) @@ (<<176, 181>> :> 22311) @@ (<<176, 194>> :> 23433) @@ (<<176, 202>> :> 20197) @@ (<<176, 204>> :> 20301) @@ (<<176, 205>> :> 20381) @@ (<<176, 206>> :> 20553) @@ (<<176, 236>> :> 19968) @@ (<<177, 166>> :> 21491) @@ (<<178, 188>> :> 19979) @@ (<<178, 208>> :> 28779) @@ (<<181, 189>> :> 27450) @@ (<<182, 226>> :> 37329) @@ (<<182, 229>> :> 20061) @@ (<<183, 238>> :> 26376) @@ (<<184, 222>> :> 20116) @@ (<<184, 229>> :> 24460) @@ (<<184, 236>> :> 35486) @@ (<<184, 253>> :> 21475) @@ (<<185, 189>> :> 27083) @@ (<<186, 184>> :> 24038) @@ (<<187, 176>> :> 19977) @@ (<<187, 179>> :> 23665) @@ (<<187, 205>> :> 22235) @@ (<<187, 250>> :> 23383) @@ (<<188, 168>> :> 31034) @@ (<<188, 183>> :> 19971) @@ (<<189, 189>> :> 21313) @@ (<<189, 232>> :> 20966) @@ (<<190, 174>> :> 23567) @@ (<<190, 229>> :> 19978) @@ (<<191, 189>> :> 30003) @@ (<<191, 205>> :> 20154) @@ (<<191, 229>> :> 27700) @@ (<<192, 190>> :> 35199) @@ (<<192, 238>> :> 24029) @@ (<<193, 176>> :> 21069) @@ (<<194, 164>> :> 36896) @@ (<<194, 231>> :> 22823) @@ (<<195, 230>> :> 20013) @@ (<<197, 189>> :> 36028) @@ (<<197, 196>> :> 30000) @@ (<<197, 218>> :> 22303) @@ (<<197, 236>> :> 26481) @@ (<<198, 238>> :> 21335) @@ (<<198, 243>> :> 20108) @@ (<<198, 252>> :> 26085) @@ (<<199, 189>> :> 33021) @@ (<<200, 172>> :> 20843) @@ (<<201, 189>> :> 34920) @@ (<<202, 184>> :> 25991) @@ (<<203, 189>> :> 26292) @@ (<<203, 204>> :> 21271) @@ (<<204, 218>> :> 26408) @@ (<<205, 189>> :> 20104) @@ (<<205, 253>> :> 29702) @@ (<<206, 207>> :> 21147) @@ (<<207, 187>> :> 20845)
ShiftJis == (<<130, 160>> :> 12354) @@ (<<130, 162>> :> 12356) @@ (<<130, 164>> :> 12358) @@ (<<130, 166>> :> 12360) @@ (<<130, 168>> :> 12362) @@ (<<130, 169>> :> 12363) @@ (<<130, 171>> :> 12365) @@ (<<130, 173>> :> 12367) @@ (<<130, 175>> :> 12369) @@ (<<130, 177>> :> 12371) @@ (<<130, 179>> :> 12373) @@ (<<130, 181>> :> 12375) @@ (<<130, 183>> :> 12377) @@ (<<130, 185>> :> 12379) @@ (<<130, 187>> :> 12381) @@ (<<130, 189>> :> 12383) @@ (<<130, 191>> :> 12385) @@ (<<130, 194>> :> 12388) @@ (<<130, 196>> :> 12390) @@ (<<130, 198>> :> 12392) @@ (<<130, 200>> :> 12394) @@ (<<130, 201>> :> 12395) @@ (<<130, 202>> :> 12396) @@ (<<130, 203>> :> 12397) @@ (<<130, 204>> :> 12398) @@ (<<130, 205>> :> 12399) @@ (<<130, 208>> :> 12402) @@ (<<130, 211>> :> 12405) @@ (<<130, 214>> :> 12408) @@ (<<130, 217>> :> 12411) @@ (<<130, 220>> :> 12414) @@ (<<130, 221>> :> 12415) @@ (<<130, 222>> :> 12416) @@ (<<130, 223>> :> 12417) @@ (<<130, 224>> :> 12418) @@ (<<130, 226>> :> 12420) @@ (<<130, 228>> :> 12422) @@ (<<130, 230>> :> 12424) @@ (<<130, 231>> :> 12425) @@ (<<130, 232>> :> 12426) @@ (<<130, 233>> :> 12427) @@ (<<130, 234>> :> 12428) @@ (<<130, 235>> :> 12429) @@ (<<130, 237>> :> 12431) @@ (<<130, 240>> :> 12434) @@ (<<130, 241>> :> 12435) @@ (<<131, 65>> :> 12450) @@ (<<131, 67>> :> 12452) @@ (<<131, 69>> :> 12454) @@ (<<131, 71>> :> 12456) @@ (<<131, 73>> :> 12458) @@ (<<131, 74>> :> 12459) @@ (<<131, 76>> :> 12461) @@ (<<131, 78>> :> 12463) @@ (<<131, 80>> :> 12465) @@ (<<131, 82>> :> 12467) @@ (<<131, 84>> :> 12469) @@ (<<131, 86>> :> 12471) @@ (<<131, 88>> :> 12473) @@ (<<131, 90>> :> 12475) @@ (<<131, 92>> :> 12477) @@ (<<131, 94>> :> 12479) @@ (<<131, 96>> :> 12481) @@ (<<131, 99>> :> 12484) @@ (<<131, 101>> :> 12486) @@ (<<131, 103>> :> 12488) @@ (<<131, 105>> :> 12490) @@ (<<131, 106>> :> 12491) @@ (<<131, 107>> :> 12492) @@ (<<131, 108>> :> 12493) @@ (<<131, 109>> :> 12494) @@ (<<131, 110>> :> 12495) @@ (<<131, 113>> :> 12498) @@ (<<131, 116>> :> 12501) @@ (<<131, 119>> :> 12504) @@ (<<131, 122>> :> 12507) @@ (<<131, 125>> :> 12510) @@ (<<131, 126>> :> 12511) @@ (<<131, 128>> :> 12512) @@ (<<131, 129>> :> 12513) @@ (<<131, 130>> :> 12514) @@ (<<131, 132>> :> 12516) @@ (<<131, 134>> :> 12518) @@ (<<131, 136>> :> 12520) @@ (<<131, 137>> :> 12521) @@ (<<131, 138>> :> 12522) @@ (<<131, 139>> :> 12523) @@ (<<131, 140>> :> 12524) @@ (<<131, 141>> :> 12525) @@ (<<131, 143>> :> 12527) @@ (<<131, 146>> :> 12530) @@ (<<131, 147>> :> 12531) @@ (<<136, 159>> :> 20124) @@ (<<136, 163>> :> 21696) @@ (<<136, 164>> :> 24859) @@ (<<136, 171>> :> 24746) @@ (<<136, 179>> :> 22311) @@ (<<136, 192>> :> 23433) @@ (<<136, 200>> :> 20197) @@ (<<136, 202>> :> 20301) @@ (<<136, 203>> :> 20381) @@ (<<136, 204>> :> 20553) @@ (<<136, 234>> :> 19968) @@ (<<137, 69>> :> 21491) @@ (<<137, 186>> :> 19979) @@ (<<137, 206>> :> 28779) @@ (<<139, 92>> :> 27450) @@ (<<139, 224>> :> 37329) @@ (<<139, 227>> :> 20061) @@ (<<140, 142>> :> 26376) @@ (<<140, 220>> :> 20116) @@ (<<140, 227>> :> 24460) @@ (<<140, 234>> :> 35486) @@ (<<140, 251>> :> 21475) @@ (<<141, 92>> :> 27083) @@ (<<141, 182>> :> 24038) @@ (<<142, 79>> :> 19977) @@ (<<142, 82>> :> 23665) @@ (<<142, 108>> :> 22235) @@ (<<142, 154>> :> 23383) @@ (<<142, 166>> :> 31034) @@ (<<142, 181>> :> 19971) @@ (<<143, 92>> :> 21313) @@ (<<143, 136>> :> 20966) @@ (<<143, 172>> :> 23567) @@ (<<143, 227>> :> 19978) @@ (<<144, 92>> :> 30003) @@ (<<144, 108>> :> 20154) @@ (<<144, 133>> :> 27700) @@ (<<144, 188>> :> 35199) @@ (<<144, 236>> :> 24029) @@ (<<145, 79>> :> 21069) @@ (<<145, 162>> :> 36896) @@ (<<145, 229>> :> 22823) @@ (<<146, 134>> :> 20013) @@ (<<147, 92>> :> 36028) @@ (<<147, 99>> :> 30000) @@ (<<147, 121>> :> 22303) @@ (<<147, 140>> :> 26481) @@ (<<147, 236>> :> 21335) @@ (<<147, 241>> :> 20108) @@ (<<147, 250>> :> 26085) @@ (<<148, 92>> :> 33021) @@ (<<148, 170>> :> 20843) @@ (<<149, 92>> :> 34920) @@ (<<149, 182>> :> 25991) @@ (<<150, 92>> :> 26292) @@ (<<150, 107>> :> 21271) @@ (<<150, 216>> :> 26408) @@ (<<151, 92>> :> 20104) @@ (<<151, 157>> :> 29702) @@ (<<151, 205>> :> 21147) @@ (<<152, 90>> :> 20845)
Big5 == (<<164, 64>> :> 19968) @@ (<<164, 67>> :> 19971) @@ (<<164, 69>> :> 20061) @@ (<<164, 71>> :> 20108) @@ (<<164, 72>> :> 20154) @@ (<<164, 75>> :> 20843) @@ (<<164, 81>> :> 21313) @@ (<<164, 84>> :> 19977) @@ (<<164, 85>> :> 19979) @@ (<<164, 87>> :> 19978) @@ (<<164, 103>> :> 22303) @@ (<<164, 106>> :> 22823) @@ (<<164, 112>> :> 23567) @@ (<<164, 164>> :> 20013) @@ (<<164, 173>> :> 20116) @@ (<<164, 187>> :> 20845) @@ (<<164, 233>> :> 26085) @@ (<<164, 235>> :> 26376) @@ (<<164, 236>> :> 26408) @@ (<<164, 244>> :> 27700) @@ (<<164, 245>> :> 28779) @@ (<<165, 92>> :> 21151) @@ (<<165, 107>> :> 21491) @@ (<<165, 124>> :> 22235) @@ (<<165, 170>> :> 24038) @@ (<<165, 193>> :> 27665) @@ (<<168, 124>> :> 32946) @@ (<<170, 247>> :> 37329) @@ (<<171, 101>> :> 21069) @@ (<<171, 225>> :> 24460) @@ (<<176, 234>> :> 22283) @@ (<<179, 92>> :> 35377) @@ (<<187, 92>> :> 33995) @@ (<<192, 92>> :> 39184)
EucKr == (<<176, 161>> :> 44032) @@ (<<176, 162>> :> 44033) @@ (<<176, 163>> :> 44036) @@ (<<176, 165>> :> 44040) @@ (<<176, 168>> :> 44048) @@ (<<176, 173>> :> 44053) @@ (<<176, 179>> :> 44060) @@ (<<176, 180>> :> 44061) @@ (<<176, 197>> :> 44144) @@ (<<176, 199>> :> 44148) @@ (<<176, 203>> :> 44160) @@ (<<176, 212>> :> 44172) @@ (<<176, 221>> :> 44201) @@ (<<176, 223>> :> 44204) @@ (<<176, 225>> :> 44208) @@ (<<176, 230>> :> 44221) @@ (<<176, 232>> :> 44228) @@ (<<176, 237>> :> 44256) @@ (<<176, 238>> :> 44257) @@ (<<176, 241>> :> 44264) @@ (<<176, 248>> :> 44277) @@ (<<176, 250>> :> 44284) @@ (<<176, 252>> :> 44288) @@ (<<177, 164>> :> 44305) @@ (<<177, 171>> :> 44340) @@ (<<177, 179>> :> 44368) @@ (<<177, 184>> :> 44396) @@ (<<177, 185>> :> 44397) @@ (<<177, 186>> :> 44400) @@ (<<177, 188>> :> 44404) @@ (<<177, 195>> :> 44417) @@ (<<177, 199>> :> 44428) @@ (<<177, 205>> :> 44480) @@ (<<177, 212>> :> 44508) @@ (<<177, 216>> :> 44537) @@ (<<177, 217>> :> 44540) @@ (<<177, 219>> :> 44544) @@ (<<177, 221>> :> 44552) @@ (<<177, 222>> :> 44553) @@ (<<177, 226>> :> 44592) @@ (<<179, 170>> :> 45208) @@ (<<180, 217>> :> 45796) @@ (<<182, 243>> :> 46972) @@ (<<184, 182>> :> 47560) @@ (<<185, 217>> :> 48148) @@ (<<187, 231>> :> 49324) @@ (<<190, 198>> :> 50500) @@ (<<192, 218>> :> 51088) @@ (<<194, 247>> :> 52264) @@ (<<196, 171>> :> 52852) @@ (<<197, 184>> :> 53440) @@ (<<198, 196>> :> 54028) @@ (<<199, 207>> :> 54616)
Jis == (<<36, 34>> :> 12354) @@ (<<36, 36>> :> 12356) @@ (<<36, 38>> :> 12358) @@ (<<36, 40>> :> 12360) @@ (<<36, 42>> :> 12362) @@ (<<36, 43>> :> 12363) @@ (<<36, 45>> :> 12365) @@ (<<36, 47>> :> 12367) @@ (<<36, 49>> :> 12369) @@ (<<36, 51>> :> 12371) @@ (<<36, 53>> :> 12373) @@ (<<36, 55>> :> 12375) @@ (<<36, 57>> :> 12377) @@ (<<36, 59>> :> 12379) @@ (<<36, 61>> :> 12381) @@ (<<36, 63>> :> 12383) @@ (<<36, 65>> :> 12385) @@ (<<36, 68>> :> 12388) @@ (<<36, 70>> :> 12390) @@ (<<36, 72>> :> 12392) @@ (<<36, 74>> :> 12394) @@ (<<36, 75>> :> 12395) @@ (<<36, 76>> :> 12396) @@ (<<36, 77>> :> 12397) @@ (<<36, 78>> :> 12398) @@ (<<36, 79>> :> 12399) @@ (<<36, 82>> :> 12402) @@ (<<36, 85>> :> 12405) @@ (<<36, 88>> :> 12408) @@ (<<36, 91>> :> 12411) @@ (<<36, 94>> :> 12414) @@ (<<36, 95>> :> 12415) @@ (<<36, 96>> :> 12416) @@ (<<36, 97>> :> 12417) @@ (<<36, 98>> :> 12418) @@ (<<36, 100>> :> 12420) @@ (<<36, 102>> :> 12422) @@ (<<36, 104>> :> 12424) @@ (<<36, 105>> :> 12425) @@ (<<36, 106>> :> 12426) @@ (<<36, 107>> :> 12427) @@ (<<36, 108>> :> 12428) @@ (<<36, 109>> :> 12429) @@ (<<36, 111>> :> 12431) @@ (<<36, 114>> :> 12434) @@ (<<36, 115>> :> 12435) @@ (<<37, 34>> :> 12450) @@ (<<37, 36>> :> 12452) @@ (<<37, 38>> :> 12454) @@ (<<37, 40>> :> 12456) @@ (<<37, 42>> :> 12458) @@ (<<37, 43>> :> 12459) @@ (<<37, 45>> :> 12461) @@ (<<37, 47>> :> 12463) @@ (<<37, 49>> :> 12465) @@ (<<37, 51>> :> 12467) @@ (<<37, 53>> :> 12469) @@ (<<37, 55>> :> 12471) @@ (<<37, 57>> :> 12473) @@ (<<37, 59>> :> 12475) @@ (<<37, 61>> :> 12477) @@ (<<37, 63>> :> 12479) @@ (<<37, 65>> :> 12481) @@ (<<37, 68>> :> 12484) @@ (<<37, 70>> :> 12486) @@ (<<37, 72>> :> 12488) @@ (<<37, 74>> :> 12490) @@ (<<37, 75>> :> 12491) @@ (<<37, 76>> :> 12492) @@ (<<37, 77>> :> 12493) @@ (<<37, 78>> :> 12494) @@ (<<37, 79>> :> 12495) @@ (<<37, 82>> :> 12498) @@ (<<37, 85>> :> 12501) @@ (<<37, 88>> :> 12504) @@ (<<37, 91>> :> 12507) @@ (<<37, 94>> :> 12510) @@ (<<37, 95>> :> 12511) @@ (<<37, 96>> :> 12512) @@ (<<37, 97>> :> 12513) @@ (<<37, 98>> :> 12514) @@ (<<37, 100>> :> 12516) @@ (<<37, 102>> :> 12518) @@ (<<37, 104>> :> 12520) @@ (<<37, 105>> :> 12521) @@ (<<37, 106>> :> 12522) @@ (<<37, 107>> :> 12523) @@ (<<37, 108>> :> 12524) @@ (<<37, 109>> :> 12525) @@ (<<37, 111>> :> 12527) @@ (<<37, 114>> :> 12530) @@ (<<37, 115>> :> 12531) @@ (<<48, 33>> :> 20124) @@ (<<48, 37>> :> 21696) @@ (<<48, 38>> :> 24859) @@ (<<48, 45>> :> 24746) @@ (<<48, 53>> :> 22311) @@ (<<48, 66>> :> 23433) @@ (<<48, 74>> :> 20197) @@ (<<48, 76>> :> 20301) @@ (<<48, 77>> :> 20381) @@ (<<48, 78>> :> 20553) @@ (<<48, 108>> :> 19968) @@ (<<49, 38>> :> 21491) @@ (<<50, 60>> :> 19979) @@ (<<50, 80>> :> 28779) @@ (<<53, 61>> :> 27450) @@ (<<54, 98>> :> 37329) @@ (<<54, 101>> :> 20061) @@ (<<55, 110>> :> 26376) @@ (<<56, 94>> :> 20116) @@ (<<56, 101>> :> 24460) @@ (<<56, 108>> :> 35486) @@ (<<56, 125>> :> 21475) @@ (<<57, 61>> :> 27083) @@ (<<58, 56>> :> 24038) @@ (<<59, 48>> :> 19977) @@ (<<59, 51>> :> 23665) @@ (<<59, 77>> :> 22235) @@ (<<59, 122>> :> 23383) @@ (<<60, 40>> :> 31034) @@ (<<60, 55>> :> 19971) @@ (<<61, 61>> :> 21313) @@ (<<61, 104>> :> 20966) @@ (<<62, 46>> :> 23567) @@ (<<62, 101>> :> 19978) @@ (<<63, 61>> :> 30003) @@ (<<63, 77>> :> 20154) @@ (<<63, 101>> :> 27700) @@ (<<64, 62>> :> 35199) @@ (<<64, 110>> :> 24029) @@ (<<65, 48>> :> 21069) @@ (<<66, 36>> :> 36896) @@ (<<66, 103>> :> 22823) @@ (<<67, 102>> :> 20013) @@ (<<69, 61>> :> 36028) @@ (<<69, 68>> :> 30000) @@ (<<69, 90>> :> 22303) @@ (<<69, 108>> :> 26481) @@ (<<70, 110>> :> 21335) @@ (<<70, 115>> :> 20108) @@ (<<70, 124>> :> 26085) @@ (<<71, 61>> :> 33021) @@ (<<72, 44>> :> 20843) @@ (<<73, 61>> :> 34920) @@ (<<74, 56>> :> 25991) @@ (<<75, 61>> :> 26292) @@ (<<75, 76>> :> 21271) @@ (<<76, 90>> :> 26408) @@ (<<77, 61>> :> 20104) @@ (<<77, 125>> :> 29702) @@ (<<78, 79>> :> 21147) @@ (<<79, 59>> :> 20845)
Hz == (<<48, 75>> :> 20843) @@ (<<52, 115>> :> 22823) @@ (<<54, 126>> :> 20108) @@ (<<57, 122>> :> 22269) @@ (<<59, 112>> :> 28779) @@ (<<61, 112>> :> 37329) @@ (<<62, 69>> :> 20061) @@ (<<65, 121>> :> 20845) @@ (<<67, 113>> :> 27665) @@ (<<68, 62>> :> 26408) @@ (<<70, 95>> :> 19971) @@ (<<71, 48>> :> 21069) @@ (<<72, 75>> :> 20154) @@ (<<72, 85>> :> 26085) @@ (<<72, 125>> :> 19977) @@ (<<73, 79>> :> 19978) @@ (<<74, 46>> :> 21313) @@ (<<75, 46>> :> 27700) @@ (<<75, 68>> :> 22235) @@ (<<77, 65>> :> 22303) @@ (<<78, 101>> :> 20116) @@ (<<79, 66>> :> 19979) @@ (<<80, 33>> :> 23567) @@ (<<82, 59>> :> 19968) @@ (<<83, 82>> :> 21491) @@ (<<84, 66>> :> 26376) @@ (<<86, 80>> :> 20013) @@ (<<87, 115>> :> 24038) @@ (<<97, 97>> :> 24460)

PairTab == (S("euc-jp") :> EucJp) @@ (S("big5") :> Big5) @@ (S("euc-kr") :> EucKr) @@
  (S("shift_jis") :> ShiftJis) @@ (S("shift-jis") :> ShiftJis) @@ (S("shiftjis") :> ShiftJis) @@ (S("cp932") :> ShiftJis)

ShiftTab ==
  LET jis == [tab |-> Jis, on |-> <<27, 36, 66>>, off |-> <<27, 40, 66>>] IN
  (S("jis") :> jis) @@ (S("iso-2022-jp") :> jis) @@
  (S("hz-gb2312") :> [tab |-> Hz, on |-> <<126, 123>>, off |-> <<126, 125>>])
=============================================================================
