pkg scheme

// the number v as 128 bits; its binary and decimal numerals
uninterp numbv(v int) bv128
axiom numbv_high(v int)
  requires: 0 <= v && v <= pow2(63)
  trig: numbv(v)
  ensures: extract(numbv(v), 127, 64) == 0
axiom decnumeral(s string)
  requires: isdec(s) && decval(s) < pow2(63)
  ensures: 1 <= len(decstr(numbv(decval(s)))) && len(decstr(numbv(decval(s)))) <= len(s) && s == rep('0', len(s) - len(decstr(numbv(decval(s))))) + decstr(numbv(decval(s)))
axiom nb0(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 0, 0) == 1) == (0 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 0] == 49)
axiom nb1(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 1, 1) == 1) == (1 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 1] == 49)
axiom nb2(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 2, 2) == 1) == (2 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 2] == 49)
axiom nb3(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 3, 3) == 1) == (3 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 3] == 49)
axiom nb4(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 4, 4) == 1) == (4 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 4] == 49)
axiom nb5(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 5, 5) == 1) == (5 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 5] == 49)
axiom nb6(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 6, 6) == 1) == (6 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 6] == 49)
axiom nb7(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 7, 7) == 1) == (7 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 7] == 49)
axiom nb8(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 8, 8) == 1) == (8 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 8] == 49)
axiom nb9(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 9, 9) == 1) == (9 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 9] == 49)
axiom nb10(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 10, 10) == 1) == (10 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 10] == 49)
axiom nb11(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 11, 11) == 1) == (11 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 11] == 49)
axiom nb12(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 12, 12) == 1) == (12 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 12] == 49)
axiom nb13(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 13, 13) == 1) == (13 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 13] == 49)
axiom nb14(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 14, 14) == 1) == (14 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 14] == 49)
axiom nb15(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 15, 15) == 1) == (15 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 15] == 49)
axiom nb16(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 16, 16) == 1) == (16 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 16] == 49)
axiom nb17(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 17, 17) == 1) == (17 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 17] == 49)
axiom nb18(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 18, 18) == 1) == (18 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 18] == 49)
axiom nb19(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 19, 19) == 1) == (19 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 19] == 49)
axiom nb20(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 20, 20) == 1) == (20 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 20] == 49)
axiom nb21(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 21, 21) == 1) == (21 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 21] == 49)
axiom nb22(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 22, 22) == 1) == (22 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 22] == 49)
axiom nb23(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 23, 23) == 1) == (23 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 23] == 49)
axiom nb24(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 24, 24) == 1) == (24 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 24] == 49)
axiom nb25(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 25, 25) == 1) == (25 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 25] == 49)
axiom nb26(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 26, 26) == 1) == (26 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 26] == 49)
axiom nb27(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 27, 27) == 1) == (27 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 27] == 49)
axiom nb28(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 28, 28) == 1) == (28 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 28] == 49)
axiom nb29(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 29, 29) == 1) == (29 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 29] == 49)
axiom nb30(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 30, 30) == 1) == (30 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 30] == 49)
axiom nb31(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 31, 31) == 1) == (31 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 31] == 49)
axiom nb32(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 32, 32) == 1) == (32 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 32] == 49)
axiom nb33(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 33, 33) == 1) == (33 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 33] == 49)
axiom nb34(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 34, 34) == 1) == (34 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 34] == 49)
axiom nb35(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 35, 35) == 1) == (35 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 35] == 49)
axiom nb36(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 36, 36) == 1) == (36 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 36] == 49)
axiom nb37(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 37, 37) == 1) == (37 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 37] == 49)
axiom nb38(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 38, 38) == 1) == (38 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 38] == 49)
axiom nb39(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 39, 39) == 1) == (39 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 39] == 49)
axiom nb40(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 40, 40) == 1) == (40 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 40] == 49)
axiom nb41(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 41, 41) == 1) == (41 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 41] == 49)
axiom nb42(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 42, 42) == 1) == (42 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 42] == 49)
axiom nb43(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 43, 43) == 1) == (43 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 43] == 49)
axiom nb44(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 44, 44) == 1) == (44 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 44] == 49)
axiom nb45(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 45, 45) == 1) == (45 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 45] == 49)
axiom nb46(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 46, 46) == 1) == (46 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 46] == 49)
axiom nb47(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 47, 47) == 1) == (47 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 47] == 49)
axiom nb48(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 48, 48) == 1) == (48 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 48] == 49)
axiom nb49(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 49, 49) == 1) == (49 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 49] == 49)
axiom nb50(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 50, 50) == 1) == (50 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 50] == 49)
axiom nb51(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 51, 51) == 1) == (51 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 51] == 49)
axiom nb52(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 52, 52) == 1) == (52 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 52] == 49)
axiom nb53(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 53, 53) == 1) == (53 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 53] == 49)
axiom nb54(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 54, 54) == 1) == (54 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 54] == 49)
axiom nb55(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 55, 55) == 1) == (55 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 55] == 49)
axiom nb56(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 56, 56) == 1) == (56 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 56] == 49)
axiom nb57(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 57, 57) == 1) == (57 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 57] == 49)
axiom nb58(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 58, 58) == 1) == (58 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 58] == 49)
axiom nb59(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 59, 59) == 1) == (59 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 59] == 49)
axiom nb60(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 60, 60) == 1) == (60 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 60] == 49)
axiom nb61(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 61, 61) == 1) == (61 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 61] == 49)
axiom nb62(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 62, 62) == 1) == (62 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 62] == 49)
axiom nb63(v int)
  requires: 0 <= v && v <= pow2(63)
  ensures: (extract(numbv(v), 63, 63) == 1) == (63 < len(binstr(v)) && runes(binstr(v))[len(binstr(v)) - 1 - 63] == 49)
lemma ub_58_38(id []byte, v int)
  requires: len(id) == 12 && 0 <= v && v < pow2(38) && carries(id, 58, runes(field(v, 38)))
  use: binstr_width(v, 38)
  use: nb0(v)
  use: nb1(v)
  use: nb2(v)
  use: nb3(v)
  use: nb4(v)
  use: nb5(v)
  use: nb6(v)
  use: nb7(v)
  use: nb8(v)
  use: nb9(v)
  use: nb10(v)
  use: nb11(v)
  use: nb12(v)
  use: nb13(v)
  use: nb14(v)
  use: nb15(v)
  use: nb16(v)
  use: nb17(v)
  use: nb18(v)
  use: nb19(v)
  use: nb20(v)
  use: nb21(v)
  use: nb22(v)
  use: nb23(v)
  use: nb24(v)
  use: nb25(v)
  use: nb26(v)
  use: nb27(v)
  use: nb28(v)
  use: nb29(v)
  use: nb30(v)
  use: nb31(v)
  use: nb32(v)
  use: nb33(v)
  use: nb34(v)
  use: nb35(v)
  use: nb36(v)
  use: nb37(v)
  use: nb38(v)
  use: nb39(v)
  use: nb40(v)
  use: nb41(v)
  use: nb42(v)
  use: nb43(v)
  use: nb44(v)
  use: nb45(v)
  use: nb46(v)
  use: nb47(v)
  use: nb48(v)
  use: nb49(v)
  use: nb50(v)
  use: nb51(v)
  use: nb52(v)
  use: nb53(v)
  use: nb54(v)
  use: nb55(v)
  use: nb56(v)
  use: nb57(v)
  use: nb58(v)
  use: nb59(v)
  use: nb60(v)
  use: nb61(v)
  use: nb62(v)
  use: nb63(v)
  ensures: imp(tick(idbit(id, 58)) && tick(idbit(id, 59)) && tick(idbit(id, 60)) && tick(idbit(id, 61)) && tick(idbit(id, 62)) && tick(idbit(id, 63)) && tick(idbit(id, 64)) && tick(idbit(id, 65)) && tick(idbit(id, 66)) && tick(idbit(id, 67)) && tick(idbit(id, 68)) && tick(idbit(id, 69)) && tick(idbit(id, 70)) && tick(idbit(id, 71)) && tick(idbit(id, 72)) && tick(idbit(id, 73)) && tick(idbit(id, 74)) && tick(idbit(id, 75)) && tick(idbit(id, 76)) && tick(idbit(id, 77)) && tick(idbit(id, 78)) && tick(idbit(id, 79)) && tick(idbit(id, 80)) && tick(idbit(id, 81)) && tick(idbit(id, 82)) && tick(idbit(id, 83)) && tick(idbit(id, 84)) && tick(idbit(id, 85)) && tick(idbit(id, 86)) && tick(idbit(id, 87)) && tick(idbit(id, 88)) && tick(idbit(id, 89)) && tick(idbit(id, 90)) && tick(idbit(id, 91)) && tick(idbit(id, 92)) && tick(idbit(id, 93)) && tick(idbit(id, 94)) && tick(idbit(id, 95)), ubits(id, 58, 38) == numbv(v))
macro canon(s string) bool = len(s) == 1 || s[0] != 48
lemma decfixed(s string)
  requires: isdec(s) && decval(s) < pow2(63)
  use: decnumeral(s)
  ensures: len(decstr(numbv(decval(s)))) <= len(s) && padz(decstr(numbv(decval(s))), len(s)) == s && imp(canon(s), decstr(numbv(decval(s))) == s)
lemma ub_14_40(id []byte, v int)
  requires: len(id) == 12 && 0 <= v && v < pow2(40) && carries(id, 14, runes(field(v, 40)))
  use: binstr_width(v, 40)
  use: nb0(v)
  use: nb1(v)
  use: nb2(v)
  use: nb3(v)
  use: nb4(v)
  use: nb5(v)
  use: nb6(v)
  use: nb7(v)
  use: nb8(v)
  use: nb9(v)
  use: nb10(v)
  use: nb11(v)
  use: nb12(v)
  use: nb13(v)
  use: nb14(v)
  use: nb15(v)
  use: nb16(v)
  use: nb17(v)
  use: nb18(v)
  use: nb19(v)
  use: nb20(v)
  use: nb21(v)
  use: nb22(v)
  use: nb23(v)
  use: nb24(v)
  use: nb25(v)
  use: nb26(v)
  use: nb27(v)
  use: nb28(v)
  use: nb29(v)
  use: nb30(v)
  use: nb31(v)
  use: nb32(v)
  use: nb33(v)
  use: nb34(v)
  use: nb35(v)
  use: nb36(v)
  use: nb37(v)
  use: nb38(v)
  use: nb39(v)
  use: nb40(v)
  use: nb41(v)
  use: nb42(v)
  use: nb43(v)
  use: nb44(v)
  use: nb45(v)
  use: nb46(v)
  use: nb47(v)
  use: nb48(v)
  use: nb49(v)
  use: nb50(v)
  use: nb51(v)
  use: nb52(v)
  use: nb53(v)
  use: nb54(v)
  use: nb55(v)
  use: nb56(v)
  use: nb57(v)
  use: nb58(v)
  use: nb59(v)
  use: nb60(v)
  use: nb61(v)
  use: nb62(v)
  use: nb63(v)
  ensures: imp(tick(idbit(id, 14)) && tick(idbit(id, 15)) && tick(idbit(id, 16)) && tick(idbit(id, 17)) && tick(idbit(id, 18)) && tick(idbit(id, 19)) && tick(idbit(id, 20)) && tick(idbit(id, 21)) && tick(idbit(id, 22)) && tick(idbit(id, 23)) && tick(idbit(id, 24)) && tick(idbit(id, 25)) && tick(idbit(id, 26)) && tick(idbit(id, 27)) && tick(idbit(id, 28)) && tick(idbit(id, 29)) && tick(idbit(id, 30)) && tick(idbit(id, 31)) && tick(idbit(id, 32)) && tick(idbit(id, 33)) && tick(idbit(id, 34)) && tick(idbit(id, 35)) && tick(idbit(id, 36)) && tick(idbit(id, 37)) && tick(idbit(id, 38)) && tick(idbit(id, 39)) && tick(idbit(id, 40)) && tick(idbit(id, 41)) && tick(idbit(id, 42)) && tick(idbit(id, 43)) && tick(idbit(id, 44)) && tick(idbit(id, 45)) && tick(idbit(id, 46)) && tick(idbit(id, 47)) && tick(idbit(id, 48)) && tick(idbit(id, 49)) && tick(idbit(id, 50)) && tick(idbit(id, 51)) && tick(idbit(id, 52)) && tick(idbit(id, 53)), ubits(id, 14, 40) == numbv(v))
lemma ub_54_4(id []byte, v int)
  requires: len(id) == 12 && 0 <= v && v < pow2(4) && carries(id, 54, runes(field(v, 4)))
  use: binstr_width(v, 4)
  use: nb0(v)
  use: nb1(v)
  use: nb2(v)
  use: nb3(v)
  use: nb4(v)
  use: nb5(v)
  use: nb6(v)
  use: nb7(v)
  use: nb8(v)
  use: nb9(v)
  use: nb10(v)
  use: nb11(v)
  use: nb12(v)
  use: nb13(v)
  use: nb14(v)
  use: nb15(v)
  use: nb16(v)
  use: nb17(v)
  use: nb18(v)
  use: nb19(v)
  use: nb20(v)
  use: nb21(v)
  use: nb22(v)
  use: nb23(v)
  use: nb24(v)
  use: nb25(v)
  use: nb26(v)
  use: nb27(v)
  use: nb28(v)
  use: nb29(v)
  use: nb30(v)
  use: nb31(v)
  use: nb32(v)
  use: nb33(v)
  use: nb34(v)
  use: nb35(v)
  use: nb36(v)
  use: nb37(v)
  use: nb38(v)
  use: nb39(v)
  use: nb40(v)
  use: nb41(v)
  use: nb42(v)
  use: nb43(v)
  use: nb44(v)
  use: nb45(v)
  use: nb46(v)
  use: nb47(v)
  use: nb48(v)
  use: nb49(v)
  use: nb50(v)
  use: nb51(v)
  use: nb52(v)
  use: nb53(v)
  use: nb54(v)
  use: nb55(v)
  use: nb56(v)
  use: nb57(v)
  use: nb58(v)
  use: nb59(v)
  use: nb60(v)
  use: nb61(v)
  use: nb62(v)
  use: nb63(v)
  ensures: imp(tick(idbit(id, 54)) && tick(idbit(id, 55)) && tick(idbit(id, 56)) && tick(idbit(id, 57)), ubits(id, 54, 4) == numbv(v))
lemma rt_sgtin0(id []byte, r string, cp string, ir string, ser string)
  requires: len(id) == 12 && id[0] == 48 && len(cp) == 12 && laycp(id, cp) && isfield(cp, cpb(len(cp))) && layref(id, cp, ir, 44) && isfield(ir, 44 - cpb(len(cp))) && len(ir) == 1 && layser(id, ser) && isfield(ser, 38) && canon(ser)
  use: ub_14_40(id, decval(cp))
  use: decfixed(cp)
  use: ub_54_4(id, decval(ir))
  use: decfixed(ir)
  use: ub_58_38(id, decval(ser))
  use: decfixed(ser)
  ensures: imp(tick(idbit(id, 11)) && tick(idbit(id, 12)) && tick(idbit(id, 13)), partition(id) == 0 && epcok(id) && imp(issgtin(r, id), r == "urn:epc:id:sgtin:" + cp + "." + ir + "." + ser))
lemma ub_14_37(id []byte, v int)
  requires: len(id) == 12 && 0 <= v && v < pow2(37) && carries(id, 14, runes(field(v, 37)))
  use: binstr_width(v, 37)
  use: nb0(v)
  use: nb1(v)
  use: nb2(v)
  use: nb3(v)
  use: nb4(v)
  use: nb5(v)
  use: nb6(v)
  use: nb7(v)
  use: nb8(v)
  use: nb9(v)
  use: nb10(v)
  use: nb11(v)
  use: nb12(v)
  use: nb13(v)
  use: nb14(v)
  use: nb15(v)
  use: nb16(v)
  use: nb17(v)
  use: nb18(v)
  use: nb19(v)
  use: nb20(v)
  use: nb21(v)
  use: nb22(v)
  use: nb23(v)
  use: nb24(v)
  use: nb25(v)
  use: nb26(v)
  use: nb27(v)
  use: nb28(v)
  use: nb29(v)
  use: nb30(v)
  use: nb31(v)
  use: nb32(v)
  use: nb33(v)
  use: nb34(v)
  use: nb35(v)
  use: nb36(v)
  use: nb37(v)
  use: nb38(v)
  use: nb39(v)
  use: nb40(v)
  use: nb41(v)
  use: nb42(v)
  use: nb43(v)
  use: nb44(v)
  use: nb45(v)
  use: nb46(v)
  use: nb47(v)
  use: nb48(v)
  use: nb49(v)
  use: nb50(v)
  use: nb51(v)
  use: nb52(v)
  use: nb53(v)
  use: nb54(v)
  use: nb55(v)
  use: nb56(v)
  use: nb57(v)
  use: nb58(v)
  use: nb59(v)
  use: nb60(v)
  use: nb61(v)
  use: nb62(v)
  use: nb63(v)
  ensures: imp(tick(idbit(id, 14)) && tick(idbit(id, 15)) && tick(idbit(id, 16)) && tick(idbit(id, 17)) && tick(idbit(id, 18)) && tick(idbit(id, 19)) && tick(idbit(id, 20)) && tick(idbit(id, 21)) && tick(idbit(id, 22)) && tick(idbit(id, 23)) && tick(idbit(id, 24)) && tick(idbit(id, 25)) && tick(idbit(id, 26)) && tick(idbit(id, 27)) && tick(idbit(id, 28)) && tick(idbit(id, 29)) && tick(idbit(id, 30)) && tick(idbit(id, 31)) && tick(idbit(id, 32)) && tick(idbit(id, 33)) && tick(idbit(id, 34)) && tick(idbit(id, 35)) && tick(idbit(id, 36)) && tick(idbit(id, 37)) && tick(idbit(id, 38)) && tick(idbit(id, 39)) && tick(idbit(id, 40)) && tick(idbit(id, 41)) && tick(idbit(id, 42)) && tick(idbit(id, 43)) && tick(idbit(id, 44)) && tick(idbit(id, 45)) && tick(idbit(id, 46)) && tick(idbit(id, 47)) && tick(idbit(id, 48)) && tick(idbit(id, 49)) && tick(idbit(id, 50)), ubits(id, 14, 37) == numbv(v))
lemma ub_51_7(id []byte, v int)
  requires: len(id) == 12 && 0 <= v && v < pow2(7) && carries(id, 51, runes(field(v, 7)))
  use: binstr_width(v, 7)
  use: nb0(v)
  use: nb1(v)
  use: nb2(v)
  use: nb3(v)
  use: nb4(v)
  use: nb5(v)
  use: nb6(v)
  use: nb7(v)
  use: nb8(v)
  use: nb9(v)
  use: nb10(v)
  use: nb11(v)
  use: nb12(v)
  use: nb13(v)
  use: nb14(v)
  use: nb15(v)
  use: nb16(v)
  use: nb17(v)
  use: nb18(v)
  use: nb19(v)
  use: nb20(v)
  use: nb21(v)
  use: nb22(v)
  use: nb23(v)
  use: nb24(v)
  use: nb25(v)
  use: nb26(v)
  use: nb27(v)
  use: nb28(v)
  use: nb29(v)
  use: nb30(v)
  use: nb31(v)
  use: nb32(v)
  use: nb33(v)
  use: nb34(v)
  use: nb35(v)
  use: nb36(v)
  use: nb37(v)
  use: nb38(v)
  use: nb39(v)
  use: nb40(v)
  use: nb41(v)
  use: nb42(v)
  use: nb43(v)
  use: nb44(v)
  use: nb45(v)
  use: nb46(v)
  use: nb47(v)
  use: nb48(v)
  use: nb49(v)
  use: nb50(v)
  use: nb51(v)
  use: nb52(v)
  use: nb53(v)
  use: nb54(v)
  use: nb55(v)
  use: nb56(v)
  use: nb57(v)
  use: nb58(v)
  use: nb59(v)
  use: nb60(v)
  use: nb61(v)
  use: nb62(v)
  use: nb63(v)
  ensures: imp(tick(idbit(id, 51)) && tick(idbit(id, 52)) && tick(idbit(id, 53)) && tick(idbit(id, 54)) && tick(idbit(id, 55)) && tick(idbit(id, 56)) && tick(idbit(id, 57)), ubits(id, 51, 7) == numbv(v))
lemma rt_sgtin1(id []byte, r string, cp string, ir string, ser string)
  requires: len(id) == 12 && id[0] == 48 && len(cp) == 11 && laycp(id, cp) && isfield(cp, cpb(len(cp))) && layref(id, cp, ir, 44) && isfield(ir, 44 - cpb(len(cp))) && len(ir) == 2 && layser(id, ser) && isfield(ser, 38) && canon(ser)
  use: ub_14_37(id, decval(cp))
  use: decfixed(cp)
  use: ub_51_7(id, decval(ir))
  use: decfixed(ir)
  use: ub_58_38(id, decval(ser))
  use: decfixed(ser)
  ensures: imp(tick(idbit(id, 11)) && tick(idbit(id, 12)) && tick(idbit(id, 13)), partition(id) == 1 && epcok(id) && imp(issgtin(r, id), r == "urn:epc:id:sgtin:" + cp + "." + ir + "." + ser))
lemma ub_14_34(id []byte, v int)
  requires: len(id) == 12 && 0 <= v && v < pow2(34) && carries(id, 14, runes(field(v, 34)))
  use: binstr_width(v, 34)
  use: nb0(v)
  use: nb1(v)
  use: nb2(v)
  use: nb3(v)
  use: nb4(v)
  use: nb5(v)
  use: nb6(v)
  use: nb7(v)
  use: nb8(v)
  use: nb9(v)
  use: nb10(v)
  use: nb11(v)
  use: nb12(v)
  use: nb13(v)
  use: nb14(v)
  use: nb15(v)
  use: nb16(v)
  use: nb17(v)
  use: nb18(v)
  use: nb19(v)
  use: nb20(v)
  use: nb21(v)
  use: nb22(v)
  use: nb23(v)
  use: nb24(v)
  use: nb25(v)
  use: nb26(v)
  use: nb27(v)
  use: nb28(v)
  use: nb29(v)
  use: nb30(v)
  use: nb31(v)
  use: nb32(v)
  use: nb33(v)
  use: nb34(v)
  use: nb35(v)
  use: nb36(v)
  use: nb37(v)
  use: nb38(v)
  use: nb39(v)
  use: nb40(v)
  use: nb41(v)
  use: nb42(v)
  use: nb43(v)
  use: nb44(v)
  use: nb45(v)
  use: nb46(v)
  use: nb47(v)
  use: nb48(v)
  use: nb49(v)
  use: nb50(v)
  use: nb51(v)
  use: nb52(v)
  use: nb53(v)
  use: nb54(v)
  use: nb55(v)
  use: nb56(v)
  use: nb57(v)
  use: nb58(v)
  use: nb59(v)
  use: nb60(v)
  use: nb61(v)
  use: nb62(v)
  use: nb63(v)
  ensures: imp(tick(idbit(id, 14)) && tick(idbit(id, 15)) && tick(idbit(id, 16)) && tick(idbit(id, 17)) && tick(idbit(id, 18)) && tick(idbit(id, 19)) && tick(idbit(id, 20)) && tick(idbit(id, 21)) && tick(idbit(id, 22)) && tick(idbit(id, 23)) && tick(idbit(id, 24)) && tick(idbit(id, 25)) && tick(idbit(id, 26)) && tick(idbit(id, 27)) && tick(idbit(id, 28)) && tick(idbit(id, 29)) && tick(idbit(id, 30)) && tick(idbit(id, 31)) && tick(idbit(id, 32)) && tick(idbit(id, 33)) && tick(idbit(id, 34)) && tick(idbit(id, 35)) && tick(idbit(id, 36)) && tick(idbit(id, 37)) && tick(idbit(id, 38)) && tick(idbit(id, 39)) && tick(idbit(id, 40)) && tick(idbit(id, 41)) && tick(idbit(id, 42)) && tick(idbit(id, 43)) && tick(idbit(id, 44)) && tick(idbit(id, 45)) && tick(idbit(id, 46)) && tick(idbit(id, 47)), ubits(id, 14, 34) == numbv(v))
lemma ub_48_10(id []byte, v int)
  requires: len(id) == 12 && 0 <= v && v < pow2(10) && carries(id, 48, runes(field(v, 10)))
  use: binstr_width(v, 10)
  use: nb0(v)
  use: nb1(v)
  use: nb2(v)
  use: nb3(v)
  use: nb4(v)
  use: nb5(v)
  use: nb6(v)
  use: nb7(v)
  use: nb8(v)
  use: nb9(v)
  use: nb10(v)
  use: nb11(v)
  use: nb12(v)
  use: nb13(v)
  use: nb14(v)
  use: nb15(v)
  use: nb16(v)
  use: nb17(v)
  use: nb18(v)
  use: nb19(v)
  use: nb20(v)
  use: nb21(v)
  use: nb22(v)
  use: nb23(v)
  use: nb24(v)
  use: nb25(v)
  use: nb26(v)
  use: nb27(v)
  use: nb28(v)
  use: nb29(v)
  use: nb30(v)
  use: nb31(v)
  use: nb32(v)
  use: nb33(v)
  use: nb34(v)
  use: nb35(v)
  use: nb36(v)
  use: nb37(v)
  use: nb38(v)
  use: nb39(v)
  use: nb40(v)
  use: nb41(v)
  use: nb42(v)
  use: nb43(v)
  use: nb44(v)
  use: nb45(v)
  use: nb46(v)
  use: nb47(v)
  use: nb48(v)
  use: nb49(v)
  use: nb50(v)
  use: nb51(v)
  use: nb52(v)
  use: nb53(v)
  use: nb54(v)
  use: nb55(v)
  use: nb56(v)
  use: nb57(v)
  use: nb58(v)
  use: nb59(v)
  use: nb60(v)
  use: nb61(v)
  use: nb62(v)
  use: nb63(v)
  ensures: imp(tick(idbit(id, 48)) && tick(idbit(id, 49)) && tick(idbit(id, 50)) && tick(idbit(id, 51)) && tick(idbit(id, 52)) && tick(idbit(id, 53)) && tick(idbit(id, 54)) && tick(idbit(id, 55)) && tick(idbit(id, 56)) && tick(idbit(id, 57)), ubits(id, 48, 10) == numbv(v))
lemma rt_sgtin2(id []byte, r string, cp string, ir string, ser string)
  requires: len(id) == 12 && id[0] == 48 && len(cp) == 10 && laycp(id, cp) && isfield(cp, cpb(len(cp))) && layref(id, cp, ir, 44) && isfield(ir, 44 - cpb(len(cp))) && len(ir) == 3 && layser(id, ser) && isfield(ser, 38) && canon(ser)
  use: ub_14_34(id, decval(cp))
  use: decfixed(cp)
  use: ub_48_10(id, decval(ir))
  use: decfixed(ir)
  use: ub_58_38(id, decval(ser))
  use: decfixed(ser)
  ensures: imp(tick(idbit(id, 11)) && tick(idbit(id, 12)) && tick(idbit(id, 13)), partition(id) == 2 && epcok(id) && imp(issgtin(r, id), r == "urn:epc:id:sgtin:" + cp + "." + ir + "." + ser))
lemma ub_14_30(id []byte, v int)
  requires: len(id) == 12 && 0 <= v && v < pow2(30) && carries(id, 14, runes(field(v, 30)))
  use: binstr_width(v, 30)
  use: nb0(v)
  use: nb1(v)
  use: nb2(v)
  use: nb3(v)
  use: nb4(v)
  use: nb5(v)
  use: nb6(v)
  use: nb7(v)
  use: nb8(v)
  use: nb9(v)
  use: nb10(v)
  use: nb11(v)
  use: nb12(v)
  use: nb13(v)
  use: nb14(v)
  use: nb15(v)
  use: nb16(v)
  use: nb17(v)
  use: nb18(v)
  use: nb19(v)
  use: nb20(v)
  use: nb21(v)
  use: nb22(v)
  use: nb23(v)
  use: nb24(v)
  use: nb25(v)
  use: nb26(v)
  use: nb27(v)
  use: nb28(v)
  use: nb29(v)
  use: nb30(v)
  use: nb31(v)
  use: nb32(v)
  use: nb33(v)
  use: nb34(v)
  use: nb35(v)
  use: nb36(v)
  use: nb37(v)
  use: nb38(v)
  use: nb39(v)
  use: nb40(v)
  use: nb41(v)
  use: nb42(v)
  use: nb43(v)
  use: nb44(v)
  use: nb45(v)
  use: nb46(v)
  use: nb47(v)
  use: nb48(v)
  use: nb49(v)
  use: nb50(v)
  use: nb51(v)
  use: nb52(v)
  use: nb53(v)
  use: nb54(v)
  use: nb55(v)
  use: nb56(v)
  use: nb57(v)
  use: nb58(v)
  use: nb59(v)
  use: nb60(v)
  use: nb61(v)
  use: nb62(v)
  use: nb63(v)
  ensures: imp(tick(idbit(id, 14)) && tick(idbit(id, 15)) && tick(idbit(id, 16)) && tick(idbit(id, 17)) && tick(idbit(id, 18)) && tick(idbit(id, 19)) && tick(idbit(id, 20)) && tick(idbit(id, 21)) && tick(idbit(id, 22)) && tick(idbit(id, 23)) && tick(idbit(id, 24)) && tick(idbit(id, 25)) && tick(idbit(id, 26)) && tick(idbit(id, 27)) && tick(idbit(id, 28)) && tick(idbit(id, 29)) && tick(idbit(id, 30)) && tick(idbit(id, 31)) && tick(idbit(id, 32)) && tick(idbit(id, 33)) && tick(idbit(id, 34)) && tick(idbit(id, 35)) && tick(idbit(id, 36)) && tick(idbit(id, 37)) && tick(idbit(id, 38)) && tick(idbit(id, 39)) && tick(idbit(id, 40)) && tick(idbit(id, 41)) && tick(idbit(id, 42)) && tick(idbit(id, 43)), ubits(id, 14, 30) == numbv(v))
lemma ub_44_14(id []byte, v int)
  requires: len(id) == 12 && 0 <= v && v < pow2(14) && carries(id, 44, runes(field(v, 14)))
  use: binstr_width(v, 14)
  use: nb0(v)
  use: nb1(v)
  use: nb2(v)
  use: nb3(v)
  use: nb4(v)
  use: nb5(v)
  use: nb6(v)
  use: nb7(v)
  use: nb8(v)
  use: nb9(v)
  use: nb10(v)
  use: nb11(v)
  use: nb12(v)
  use: nb13(v)
  use: nb14(v)
  use: nb15(v)
  use: nb16(v)
  use: nb17(v)
  use: nb18(v)
  use: nb19(v)
  use: nb20(v)
  use: nb21(v)
  use: nb22(v)
  use: nb23(v)
  use: nb24(v)
  use: nb25(v)
  use: nb26(v)
  use: nb27(v)
  use: nb28(v)
  use: nb29(v)
  use: nb30(v)
  use: nb31(v)
  use: nb32(v)
  use: nb33(v)
  use: nb34(v)
  use: nb35(v)
  use: nb36(v)
  use: nb37(v)
  use: nb38(v)
  use: nb39(v)
  use: nb40(v)
  use: nb41(v)
  use: nb42(v)
  use: nb43(v)
  use: nb44(v)
  use: nb45(v)
  use: nb46(v)
  use: nb47(v)
  use: nb48(v)
  use: nb49(v)
  use: nb50(v)
  use: nb51(v)
  use: nb52(v)
  use: nb53(v)
  use: nb54(v)
  use: nb55(v)
  use: nb56(v)
  use: nb57(v)
  use: nb58(v)
  use: nb59(v)
  use: nb60(v)
  use: nb61(v)
  use: nb62(v)
  use: nb63(v)
  ensures: imp(tick(idbit(id, 44)) && tick(idbit(id, 45)) && tick(idbit(id, 46)) && tick(idbit(id, 47)) && tick(idbit(id, 48)) && tick(idbit(id, 49)) && tick(idbit(id, 50)) && tick(idbit(id, 51)) && tick(idbit(id, 52)) && tick(idbit(id, 53)) && tick(idbit(id, 54)) && tick(idbit(id, 55)) && tick(idbit(id, 56)) && tick(idbit(id, 57)), ubits(id, 44, 14) == numbv(v))
lemma rt_sgtin3(id []byte, r string, cp string, ir string, ser string)
  requires: len(id) == 12 && id[0] == 48 && len(cp) == 9 && laycp(id, cp) && isfield(cp, cpb(len(cp))) && layref(id, cp, ir, 44) && isfield(ir, 44 - cpb(len(cp))) && len(ir) == 4 && layser(id, ser) && isfield(ser, 38) && canon(ser)
  use: ub_14_30(id, decval(cp))
  use: decfixed(cp)
  use: ub_44_14(id, decval(ir))
  use: decfixed(ir)
  use: ub_58_38(id, decval(ser))
  use: decfixed(ser)
  ensures: imp(tick(idbit(id, 11)) && tick(idbit(id, 12)) && tick(idbit(id, 13)), partition(id) == 3 && epcok(id) && imp(issgtin(r, id), r == "urn:epc:id:sgtin:" + cp + "." + ir + "." + ser))
lemma ub_14_27(id []byte, v int)
  requires: len(id) == 12 && 0 <= v && v < pow2(27) && carries(id, 14, runes(field(v, 27)))
  use: binstr_width(v, 27)
  use: nb0(v)
  use: nb1(v)
  use: nb2(v)
  use: nb3(v)
  use: nb4(v)
  use: nb5(v)
  use: nb6(v)
  use: nb7(v)
  use: nb8(v)
  use: nb9(v)
  use: nb10(v)
  use: nb11(v)
  use: nb12(v)
  use: nb13(v)
  use: nb14(v)
  use: nb15(v)
  use: nb16(v)
  use: nb17(v)
  use: nb18(v)
  use: nb19(v)
  use: nb20(v)
  use: nb21(v)
  use: nb22(v)
  use: nb23(v)
  use: nb24(v)
  use: nb25(v)
  use: nb26(v)
  use: nb27(v)
  use: nb28(v)
  use: nb29(v)
  use: nb30(v)
  use: nb31(v)
  use: nb32(v)
  use: nb33(v)
  use: nb34(v)
  use: nb35(v)
  use: nb36(v)
  use: nb37(v)
  use: nb38(v)
  use: nb39(v)
  use: nb40(v)
  use: nb41(v)
  use: nb42(v)
  use: nb43(v)
  use: nb44(v)
  use: nb45(v)
  use: nb46(v)
  use: nb47(v)
  use: nb48(v)
  use: nb49(v)
  use: nb50(v)
  use: nb51(v)
  use: nb52(v)
  use: nb53(v)
  use: nb54(v)
  use: nb55(v)
  use: nb56(v)
  use: nb57(v)
  use: nb58(v)
  use: nb59(v)
  use: nb60(v)
  use: nb61(v)
  use: nb62(v)
  use: nb63(v)
  ensures: imp(tick(idbit(id, 14)) && tick(idbit(id, 15)) && tick(idbit(id, 16)) && tick(idbit(id, 17)) && tick(idbit(id, 18)) && tick(idbit(id, 19)) && tick(idbit(id, 20)) && tick(idbit(id, 21)) && tick(idbit(id, 22)) && tick(idbit(id, 23)) && tick(idbit(id, 24)) && tick(idbit(id, 25)) && tick(idbit(id, 26)) && tick(idbit(id, 27)) && tick(idbit(id, 28)) && tick(idbit(id, 29)) && tick(idbit(id, 30)) && tick(idbit(id, 31)) && tick(idbit(id, 32)) && tick(idbit(id, 33)) && tick(idbit(id, 34)) && tick(idbit(id, 35)) && tick(idbit(id, 36)) && tick(idbit(id, 37)) && tick(idbit(id, 38)) && tick(idbit(id, 39)) && tick(idbit(id, 40)), ubits(id, 14, 27) == numbv(v))
lemma ub_41_17(id []byte, v int)
  requires: len(id) == 12 && 0 <= v && v < pow2(17) && carries(id, 41, runes(field(v, 17)))
  use: binstr_width(v, 17)
  use: nb0(v)
  use: nb1(v)
  use: nb2(v)
  use: nb3(v)
  use: nb4(v)
  use: nb5(v)
  use: nb6(v)
  use: nb7(v)
  use: nb8(v)
  use: nb9(v)
  use: nb10(v)
  use: nb11(v)
  use: nb12(v)
  use: nb13(v)
  use: nb14(v)
  use: nb15(v)
  use: nb16(v)
  use: nb17(v)
  use: nb18(v)
  use: nb19(v)
  use: nb20(v)
  use: nb21(v)
  use: nb22(v)
  use: nb23(v)
  use: nb24(v)
  use: nb25(v)
  use: nb26(v)
  use: nb27(v)
  use: nb28(v)
  use: nb29(v)
  use: nb30(v)
  use: nb31(v)
  use: nb32(v)
  use: nb33(v)
  use: nb34(v)
  use: nb35(v)
  use: nb36(v)
  use: nb37(v)
  use: nb38(v)
  use: nb39(v)
  use: nb40(v)
  use: nb41(v)
  use: nb42(v)
  use: nb43(v)
  use: nb44(v)
  use: nb45(v)
  use: nb46(v)
  use: nb47(v)
  use: nb48(v)
  use: nb49(v)
  use: nb50(v)
  use: nb51(v)
  use: nb52(v)
  use: nb53(v)
  use: nb54(v)
  use: nb55(v)
  use: nb56(v)
  use: nb57(v)
  use: nb58(v)
  use: nb59(v)
  use: nb60(v)
  use: nb61(v)
  use: nb62(v)
  use: nb63(v)
  ensures: imp(tick(idbit(id, 41)) && tick(idbit(id, 42)) && tick(idbit(id, 43)) && tick(idbit(id, 44)) && tick(idbit(id, 45)) && tick(idbit(id, 46)) && tick(idbit(id, 47)) && tick(idbit(id, 48)) && tick(idbit(id, 49)) && tick(idbit(id, 50)) && tick(idbit(id, 51)) && tick(idbit(id, 52)) && tick(idbit(id, 53)) && tick(idbit(id, 54)) && tick(idbit(id, 55)) && tick(idbit(id, 56)) && tick(idbit(id, 57)), ubits(id, 41, 17) == numbv(v))
lemma rt_sgtin4(id []byte, r string, cp string, ir string, ser string)
  requires: len(id) == 12 && id[0] == 48 && len(cp) == 8 && laycp(id, cp) && isfield(cp, cpb(len(cp))) && layref(id, cp, ir, 44) && isfield(ir, 44 - cpb(len(cp))) && len(ir) == 5 && layser(id, ser) && isfield(ser, 38) && canon(ser)
  use: ub_14_27(id, decval(cp))
  use: decfixed(cp)
  use: ub_41_17(id, decval(ir))
  use: decfixed(ir)
  use: ub_58_38(id, decval(ser))
  use: decfixed(ser)
  ensures: imp(tick(idbit(id, 11)) && tick(idbit(id, 12)) && tick(idbit(id, 13)), partition(id) == 4 && epcok(id) && imp(issgtin(r, id), r == "urn:epc:id:sgtin:" + cp + "." + ir + "." + ser))
lemma ub_14_24(id []byte, v int)
  requires: len(id) == 12 && 0 <= v && v < pow2(24) && carries(id, 14, runes(field(v, 24)))
  use: binstr_width(v, 24)
  use: nb0(v)
  use: nb1(v)
  use: nb2(v)
  use: nb3(v)
  use: nb4(v)
  use: nb5(v)
  use: nb6(v)
  use: nb7(v)
  use: nb8(v)
  use: nb9(v)
  use: nb10(v)
  use: nb11(v)
  use: nb12(v)
  use: nb13(v)
  use: nb14(v)
  use: nb15(v)
  use: nb16(v)
  use: nb17(v)
  use: nb18(v)
  use: nb19(v)
  use: nb20(v)
  use: nb21(v)
  use: nb22(v)
  use: nb23(v)
  use: nb24(v)
  use: nb25(v)
  use: nb26(v)
  use: nb27(v)
  use: nb28(v)
  use: nb29(v)
  use: nb30(v)
  use: nb31(v)
  use: nb32(v)
  use: nb33(v)
  use: nb34(v)
  use: nb35(v)
  use: nb36(v)
  use: nb37(v)
  use: nb38(v)
  use: nb39(v)
  use: nb40(v)
  use: nb41(v)
  use: nb42(v)
  use: nb43(v)
  use: nb44(v)
  use: nb45(v)
  use: nb46(v)
  use: nb47(v)
  use: nb48(v)
  use: nb49(v)
  use: nb50(v)
  use: nb51(v)
  use: nb52(v)
  use: nb53(v)
  use: nb54(v)
  use: nb55(v)
  use: nb56(v)
  use: nb57(v)
  use: nb58(v)
  use: nb59(v)
  use: nb60(v)
  use: nb61(v)
  use: nb62(v)
  use: nb63(v)
  ensures: imp(tick(idbit(id, 14)) && tick(idbit(id, 15)) && tick(idbit(id, 16)) && tick(idbit(id, 17)) && tick(idbit(id, 18)) && tick(idbit(id, 19)) && tick(idbit(id, 20)) && tick(idbit(id, 21)) && tick(idbit(id, 22)) && tick(idbit(id, 23)) && tick(idbit(id, 24)) && tick(idbit(id, 25)) && tick(idbit(id, 26)) && tick(idbit(id, 27)) && tick(idbit(id, 28)) && tick(idbit(id, 29)) && tick(idbit(id, 30)) && tick(idbit(id, 31)) && tick(idbit(id, 32)) && tick(idbit(id, 33)) && tick(idbit(id, 34)) && tick(idbit(id, 35)) && tick(idbit(id, 36)) && tick(idbit(id, 37)), ubits(id, 14, 24) == numbv(v))
lemma ub_38_20(id []byte, v int)
  requires: len(id) == 12 && 0 <= v && v < pow2(20) && carries(id, 38, runes(field(v, 20)))
  use: binstr_width(v, 20)
  use: nb0(v)
  use: nb1(v)
  use: nb2(v)
  use: nb3(v)
  use: nb4(v)
  use: nb5(v)
  use: nb6(v)
  use: nb7(v)
  use: nb8(v)
  use: nb9(v)
  use: nb10(v)
  use: nb11(v)
  use: nb12(v)
  use: nb13(v)
  use: nb14(v)
  use: nb15(v)
  use: nb16(v)
  use: nb17(v)
  use: nb18(v)
  use: nb19(v)
  use: nb20(v)
  use: nb21(v)
  use: nb22(v)
  use: nb23(v)
  use: nb24(v)
  use: nb25(v)
  use: nb26(v)
  use: nb27(v)
  use: nb28(v)
  use: nb29(v)
  use: nb30(v)
  use: nb31(v)
  use: nb32(v)
  use: nb33(v)
  use: nb34(v)
  use: nb35(v)
  use: nb36(v)
  use: nb37(v)
  use: nb38(v)
  use: nb39(v)
  use: nb40(v)
  use: nb41(v)
  use: nb42(v)
  use: nb43(v)
  use: nb44(v)
  use: nb45(v)
  use: nb46(v)
  use: nb47(v)
  use: nb48(v)
  use: nb49(v)
  use: nb50(v)
  use: nb51(v)
  use: nb52(v)
  use: nb53(v)
  use: nb54(v)
  use: nb55(v)
  use: nb56(v)
  use: nb57(v)
  use: nb58(v)
  use: nb59(v)
  use: nb60(v)
  use: nb61(v)
  use: nb62(v)
  use: nb63(v)
  ensures: imp(tick(idbit(id, 38)) && tick(idbit(id, 39)) && tick(idbit(id, 40)) && tick(idbit(id, 41)) && tick(idbit(id, 42)) && tick(idbit(id, 43)) && tick(idbit(id, 44)) && tick(idbit(id, 45)) && tick(idbit(id, 46)) && tick(idbit(id, 47)) && tick(idbit(id, 48)) && tick(idbit(id, 49)) && tick(idbit(id, 50)) && tick(idbit(id, 51)) && tick(idbit(id, 52)) && tick(idbit(id, 53)) && tick(idbit(id, 54)) && tick(idbit(id, 55)) && tick(idbit(id, 56)) && tick(idbit(id, 57)), ubits(id, 38, 20) == numbv(v))
lemma rt_sgtin5(id []byte, r string, cp string, ir string, ser string)
  requires: len(id) == 12 && id[0] == 48 && len(cp) == 7 && laycp(id, cp) && isfield(cp, cpb(len(cp))) && layref(id, cp, ir, 44) && isfield(ir, 44 - cpb(len(cp))) && len(ir) == 6 && layser(id, ser) && isfield(ser, 38) && canon(ser)
  use: ub_14_24(id, decval(cp))
  use: decfixed(cp)
  use: ub_38_20(id, decval(ir))
  use: decfixed(ir)
  use: ub_58_38(id, decval(ser))
  use: decfixed(ser)
  ensures: imp(tick(idbit(id, 11)) && tick(idbit(id, 12)) && tick(idbit(id, 13)), partition(id) == 5 && epcok(id) && imp(issgtin(r, id), r == "urn:epc:id:sgtin:" + cp + "." + ir + "." + ser))
lemma ub_14_20(id []byte, v int)
  requires: len(id) == 12 && 0 <= v && v < pow2(20) && carries(id, 14, runes(field(v, 20)))
  use: binstr_width(v, 20)
  use: nb0(v)
  use: nb1(v)
  use: nb2(v)
  use: nb3(v)
  use: nb4(v)
  use: nb5(v)
  use: nb6(v)
  use: nb7(v)
  use: nb8(v)
  use: nb9(v)
  use: nb10(v)
  use: nb11(v)
  use: nb12(v)
  use: nb13(v)
  use: nb14(v)
  use: nb15(v)
  use: nb16(v)
  use: nb17(v)
  use: nb18(v)
  use: nb19(v)
  use: nb20(v)
  use: nb21(v)
  use: nb22(v)
  use: nb23(v)
  use: nb24(v)
  use: nb25(v)
  use: nb26(v)
  use: nb27(v)
  use: nb28(v)
  use: nb29(v)
  use: nb30(v)
  use: nb31(v)
  use: nb32(v)
  use: nb33(v)
  use: nb34(v)
  use: nb35(v)
  use: nb36(v)
  use: nb37(v)
  use: nb38(v)
  use: nb39(v)
  use: nb40(v)
  use: nb41(v)
  use: nb42(v)
  use: nb43(v)
  use: nb44(v)
  use: nb45(v)
  use: nb46(v)
  use: nb47(v)
  use: nb48(v)
  use: nb49(v)
  use: nb50(v)
  use: nb51(v)
  use: nb52(v)
  use: nb53(v)
  use: nb54(v)
  use: nb55(v)
  use: nb56(v)
  use: nb57(v)
  use: nb58(v)
  use: nb59(v)
  use: nb60(v)
  use: nb61(v)
  use: nb62(v)
  use: nb63(v)
  ensures: imp(tick(idbit(id, 14)) && tick(idbit(id, 15)) && tick(idbit(id, 16)) && tick(idbit(id, 17)) && tick(idbit(id, 18)) && tick(idbit(id, 19)) && tick(idbit(id, 20)) && tick(idbit(id, 21)) && tick(idbit(id, 22)) && tick(idbit(id, 23)) && tick(idbit(id, 24)) && tick(idbit(id, 25)) && tick(idbit(id, 26)) && tick(idbit(id, 27)) && tick(idbit(id, 28)) && tick(idbit(id, 29)) && tick(idbit(id, 30)) && tick(idbit(id, 31)) && tick(idbit(id, 32)) && tick(idbit(id, 33)), ubits(id, 14, 20) == numbv(v))
lemma ub_34_24(id []byte, v int)
  requires: len(id) == 12 && 0 <= v && v < pow2(24) && carries(id, 34, runes(field(v, 24)))
  use: binstr_width(v, 24)
  use: nb0(v)
  use: nb1(v)
  use: nb2(v)
  use: nb3(v)
  use: nb4(v)
  use: nb5(v)
  use: nb6(v)
  use: nb7(v)
  use: nb8(v)
  use: nb9(v)
  use: nb10(v)
  use: nb11(v)
  use: nb12(v)
  use: nb13(v)
  use: nb14(v)
  use: nb15(v)
  use: nb16(v)
  use: nb17(v)
  use: nb18(v)
  use: nb19(v)
  use: nb20(v)
  use: nb21(v)
  use: nb22(v)
  use: nb23(v)
  use: nb24(v)
  use: nb25(v)
  use: nb26(v)
  use: nb27(v)
  use: nb28(v)
  use: nb29(v)
  use: nb30(v)
  use: nb31(v)
  use: nb32(v)
  use: nb33(v)
  use: nb34(v)
  use: nb35(v)
  use: nb36(v)
  use: nb37(v)
  use: nb38(v)
  use: nb39(v)
  use: nb40(v)
  use: nb41(v)
  use: nb42(v)
  use: nb43(v)
  use: nb44(v)
  use: nb45(v)
  use: nb46(v)
  use: nb47(v)
  use: nb48(v)
  use: nb49(v)
  use: nb50(v)
  use: nb51(v)
  use: nb52(v)
  use: nb53(v)
  use: nb54(v)
  use: nb55(v)
  use: nb56(v)
  use: nb57(v)
  use: nb58(v)
  use: nb59(v)
  use: nb60(v)
  use: nb61(v)
  use: nb62(v)
  use: nb63(v)
  ensures: imp(tick(idbit(id, 34)) && tick(idbit(id, 35)) && tick(idbit(id, 36)) && tick(idbit(id, 37)) && tick(idbit(id, 38)) && tick(idbit(id, 39)) && tick(idbit(id, 40)) && tick(idbit(id, 41)) && tick(idbit(id, 42)) && tick(idbit(id, 43)) && tick(idbit(id, 44)) && tick(idbit(id, 45)) && tick(idbit(id, 46)) && tick(idbit(id, 47)) && tick(idbit(id, 48)) && tick(idbit(id, 49)) && tick(idbit(id, 50)) && tick(idbit(id, 51)) && tick(idbit(id, 52)) && tick(idbit(id, 53)) && tick(idbit(id, 54)) && tick(idbit(id, 55)) && tick(idbit(id, 56)) && tick(idbit(id, 57)), ubits(id, 34, 24) == numbv(v))
lemma rt_sgtin6(id []byte, r string, cp string, ir string, ser string)
  requires: len(id) == 12 && id[0] == 48 && len(cp) == 6 && laycp(id, cp) && isfield(cp, cpb(len(cp))) && layref(id, cp, ir, 44) && isfield(ir, 44 - cpb(len(cp))) && len(ir) == 7 && layser(id, ser) && isfield(ser, 38) && canon(ser)
  use: ub_14_20(id, decval(cp))
  use: decfixed(cp)
  use: ub_34_24(id, decval(ir))
  use: decfixed(ir)
  use: ub_58_38(id, decval(ser))
  use: decfixed(ser)
  ensures: imp(tick(idbit(id, 11)) && tick(idbit(id, 12)) && tick(idbit(id, 13)), partition(id) == 6 && epcok(id) && imp(issgtin(r, id), r == "urn:epc:id:sgtin:" + cp + "." + ir + "." + ser))
// made by MakeSGTIN96, read by Translate
lemma rt_sgtin(id []byte, r string, cp string, ir string, ser string, pc []byte)
  requires: 6 <= len(cp) && len(cp) <= 12 && len(id) == 12 && id[0] == 48 && laycp(id, cp) && isfield(cp, cpb(len(cp))) && layref(id, cp, ir, 44) && isfield(ir, 44 - cpb(len(cp))) && layser(id, ser) && isfield(ser, 38) && canon(ser) && len(ir) == 13 - len(cp)
  hide: idbit bit8
  cases: len(cp) == 12; len(cp) == 11; len(cp) == 10; len(cp) == 9; len(cp) == 8; len(cp) == 7
  use: rt_sgtin0(id, r, cp, ir, ser)
  use: rt_sgtin1(id, r, cp, ir, ser)
  use: rt_sgtin2(id, r, cp, ir, ser)
  use: rt_sgtin3(id, r, cp, ir, ser)
  use: rt_sgtin4(id, r, cp, ir, ser)
  use: rt_sgtin5(id, r, cp, ir, ser)
  use: rt_sgtin6(id, r, cp, ir, ser)
  ensures: epcok(id) && imp(issgtin(r, id), r == "urn:epc:id:sgtin:" + cp + "." + ir + "." + ser)
lemma rt_grai0(id []byte, r string, cp string, at string, ser string)
  requires: len(id) == 12 && id[0] == 51 && len(cp) == 12 && laycp(id, cp) && isfield(cp, cpb(len(cp))) && layser(id, ser) && isfield(ser, 38) && canon(ser)
  use: ub_14_40(id, decval(cp))
  use: decfixed(cp)
  use: ub_58_38(id, decval(ser))
  use: decfixed(ser)
  ensures: imp(tick(idbit(id, 11)) && tick(idbit(id, 12)) && tick(idbit(id, 13)), partition(id) == 0 && epcok(id) && imp(isgrai(r, id), r == "urn:epc:id:grai:" + cp + "." + ser))
lemma rt_grai1(id []byte, r string, cp string, at string, ser string)
  requires: len(id) == 12 && id[0] == 51 && len(cp) == 11 && laycp(id, cp) && isfield(cp, cpb(len(cp))) && layref(id, cp, at, 44) && isfield(at, 44 - cpb(len(cp))) && len(at) == 1 && layser(id, ser) && isfield(ser, 38) && canon(ser)
  use: ub_14_37(id, decval(cp))
  use: decfixed(cp)
  use: ub_51_7(id, decval(at))
  use: decfixed(at)
  use: ub_58_38(id, decval(ser))
  use: decfixed(ser)
  ensures: imp(tick(idbit(id, 11)) && tick(idbit(id, 12)) && tick(idbit(id, 13)), partition(id) == 1 && epcok(id) && imp(isgrai(r, id), r == "urn:epc:id:grai:" + cp + "." + at + "." + ser))
lemma rt_grai2(id []byte, r string, cp string, at string, ser string)
  requires: len(id) == 12 && id[0] == 51 && len(cp) == 10 && laycp(id, cp) && isfield(cp, cpb(len(cp))) && layref(id, cp, at, 44) && isfield(at, 44 - cpb(len(cp))) && len(at) == 2 && layser(id, ser) && isfield(ser, 38) && canon(ser)
  use: ub_14_34(id, decval(cp))
  use: decfixed(cp)
  use: ub_48_10(id, decval(at))
  use: decfixed(at)
  use: ub_58_38(id, decval(ser))
  use: decfixed(ser)
  ensures: imp(tick(idbit(id, 11)) && tick(idbit(id, 12)) && tick(idbit(id, 13)), partition(id) == 2 && epcok(id) && imp(isgrai(r, id), r == "urn:epc:id:grai:" + cp + "." + at + "." + ser))
lemma rt_grai3(id []byte, r string, cp string, at string, ser string)
  requires: len(id) == 12 && id[0] == 51 && len(cp) == 9 && laycp(id, cp) && isfield(cp, cpb(len(cp))) && layref(id, cp, at, 44) && isfield(at, 44 - cpb(len(cp))) && len(at) == 3 && layser(id, ser) && isfield(ser, 38) && canon(ser)
  use: ub_14_30(id, decval(cp))
  use: decfixed(cp)
  use: ub_44_14(id, decval(at))
  use: decfixed(at)
  use: ub_58_38(id, decval(ser))
  use: decfixed(ser)
  ensures: imp(tick(idbit(id, 11)) && tick(idbit(id, 12)) && tick(idbit(id, 13)), partition(id) == 3 && epcok(id) && imp(isgrai(r, id), r == "urn:epc:id:grai:" + cp + "." + at + "." + ser))
lemma rt_grai4(id []byte, r string, cp string, at string, ser string)
  requires: len(id) == 12 && id[0] == 51 && len(cp) == 8 && laycp(id, cp) && isfield(cp, cpb(len(cp))) && layref(id, cp, at, 44) && isfield(at, 44 - cpb(len(cp))) && len(at) == 4 && layser(id, ser) && isfield(ser, 38) && canon(ser)
  use: ub_14_27(id, decval(cp))
  use: decfixed(cp)
  use: ub_41_17(id, decval(at))
  use: decfixed(at)
  use: ub_58_38(id, decval(ser))
  use: decfixed(ser)
  ensures: imp(tick(idbit(id, 11)) && tick(idbit(id, 12)) && tick(idbit(id, 13)), partition(id) == 4 && epcok(id) && imp(isgrai(r, id), r == "urn:epc:id:grai:" + cp + "." + at + "." + ser))
lemma rt_grai5(id []byte, r string, cp string, at string, ser string)
  requires: len(id) == 12 && id[0] == 51 && len(cp) == 7 && laycp(id, cp) && isfield(cp, cpb(len(cp))) && layref(id, cp, at, 44) && isfield(at, 44 - cpb(len(cp))) && len(at) == 5 && layser(id, ser) && isfield(ser, 38) && canon(ser)
  use: ub_14_24(id, decval(cp))
  use: decfixed(cp)
  use: ub_38_20(id, decval(at))
  use: decfixed(at)
  use: ub_58_38(id, decval(ser))
  use: decfixed(ser)
  ensures: imp(tick(idbit(id, 11)) && tick(idbit(id, 12)) && tick(idbit(id, 13)), partition(id) == 5 && epcok(id) && imp(isgrai(r, id), r == "urn:epc:id:grai:" + cp + "." + at + "." + ser))
lemma rt_grai6(id []byte, r string, cp string, at string, ser string)
  requires: len(id) == 12 && id[0] == 51 && len(cp) == 6 && laycp(id, cp) && isfield(cp, cpb(len(cp))) && layref(id, cp, at, 44) && isfield(at, 44 - cpb(len(cp))) && len(at) == 6 && layser(id, ser) && isfield(ser, 38) && canon(ser)
  use: ub_14_20(id, decval(cp))
  use: decfixed(cp)
  use: ub_34_24(id, decval(at))
  use: decfixed(at)
  use: ub_58_38(id, decval(ser))
  use: decfixed(ser)
  ensures: imp(tick(idbit(id, 11)) && tick(idbit(id, 12)) && tick(idbit(id, 13)), partition(id) == 6 && epcok(id) && imp(isgrai(r, id), r == "urn:epc:id:grai:" + cp + "." + at + "." + ser))
// made by MakeGRAI96, read by Translate
lemma rt_grai(id []byte, r string, cp string, at string, ser string, pc []byte)
  requires: 6 <= len(cp) && len(cp) <= 12 && len(id) == 12 && id[0] == 51 && laycp(id, cp) && isfield(cp, cpb(len(cp))) && layref(id, cp, at, 44) && isfield(at, 44 - cpb(len(cp))) && layser(id, ser) && isfield(ser, 38) && canon(ser) && imp(len(cp) < 12, len(at) == 12 - len(cp))
  hide: idbit bit8
  cases: len(cp) == 12; len(cp) == 11; len(cp) == 10; len(cp) == 9; len(cp) == 8; len(cp) == 7
  use: rt_grai0(id, r, cp, at, ser)
  use: rt_grai1(id, r, cp, at, ser)
  use: rt_grai2(id, r, cp, at, ser)
  use: rt_grai3(id, r, cp, at, ser)
  use: rt_grai4(id, r, cp, at, ser)
  use: rt_grai5(id, r, cp, at, ser)
  use: rt_grai6(id, r, cp, at, ser)
  ensures: epcok(id) && imp(isgrai(r, id), r == "urn:epc:id:grai:" + cp + ite(len(cp) == 12, "", "." + at) + "." + ser)
lemma ub_54_18(id []byte, v int)
  requires: len(id) == 12 && 0 <= v && v < pow2(18) && carries(id, 54, runes(field(v, 18)))
  use: binstr_width(v, 18)
  use: nb0(v)
  use: nb1(v)
  use: nb2(v)
  use: nb3(v)
  use: nb4(v)
  use: nb5(v)
  use: nb6(v)
  use: nb7(v)
  use: nb8(v)
  use: nb9(v)
  use: nb10(v)
  use: nb11(v)
  use: nb12(v)
  use: nb13(v)
  use: nb14(v)
  use: nb15(v)
  use: nb16(v)
  use: nb17(v)
  use: nb18(v)
  use: nb19(v)
  use: nb20(v)
  use: nb21(v)
  use: nb22(v)
  use: nb23(v)
  use: nb24(v)
  use: nb25(v)
  use: nb26(v)
  use: nb27(v)
  use: nb28(v)
  use: nb29(v)
  use: nb30(v)
  use: nb31(v)
  use: nb32(v)
  use: nb33(v)
  use: nb34(v)
  use: nb35(v)
  use: nb36(v)
  use: nb37(v)
  use: nb38(v)
  use: nb39(v)
  use: nb40(v)
  use: nb41(v)
  use: nb42(v)
  use: nb43(v)
  use: nb44(v)
  use: nb45(v)
  use: nb46(v)
  use: nb47(v)
  use: nb48(v)
  use: nb49(v)
  use: nb50(v)
  use: nb51(v)
  use: nb52(v)
  use: nb53(v)
  use: nb54(v)
  use: nb55(v)
  use: nb56(v)
  use: nb57(v)
  use: nb58(v)
  use: nb59(v)
  use: nb60(v)
  use: nb61(v)
  use: nb62(v)
  use: nb63(v)
  ensures: imp(tick(idbit(id, 54)) && tick(idbit(id, 55)) && tick(idbit(id, 56)) && tick(idbit(id, 57)) && tick(idbit(id, 58)) && tick(idbit(id, 59)) && tick(idbit(id, 60)) && tick(idbit(id, 61)) && tick(idbit(id, 62)) && tick(idbit(id, 63)) && tick(idbit(id, 64)) && tick(idbit(id, 65)) && tick(idbit(id, 66)) && tick(idbit(id, 67)) && tick(idbit(id, 68)) && tick(idbit(id, 69)) && tick(idbit(id, 70)) && tick(idbit(id, 71)), ubits(id, 54, 18) == numbv(v))
lemma rt_sscc0(id []byte, r string, cp string, ext string)
  requires: len(id) == 12 && id[0] == 49 && len(cp) == 12 && laycp(id, cp) && isfield(cp, cpb(len(cp))) && layref(id, cp, ext, 58) && isfield(ext, 58 - cpb(len(cp))) && len(ext) == 5
  use: ub_14_40(id, decval(cp))
  use: decfixed(cp)
  use: ub_54_18(id, decval(ext))
  use: decfixed(ext)
  ensures: imp(tick(idbit(id, 11)) && tick(idbit(id, 12)) && tick(idbit(id, 13)), partition(id) == 0 && epcok(id) && imp(issscc(r, id), r == "urn:epc:id:sscc:" + cp + "." + ext))
lemma ub_51_21(id []byte, v int)
  requires: len(id) == 12 && 0 <= v && v < pow2(21) && carries(id, 51, runes(field(v, 21)))
  use: binstr_width(v, 21)
  use: nb0(v)
  use: nb1(v)
  use: nb2(v)
  use: nb3(v)
  use: nb4(v)
  use: nb5(v)
  use: nb6(v)
  use: nb7(v)
  use: nb8(v)
  use: nb9(v)
  use: nb10(v)
  use: nb11(v)
  use: nb12(v)
  use: nb13(v)
  use: nb14(v)
  use: nb15(v)
  use: nb16(v)
  use: nb17(v)
  use: nb18(v)
  use: nb19(v)
  use: nb20(v)
  use: nb21(v)
  use: nb22(v)
  use: nb23(v)
  use: nb24(v)
  use: nb25(v)
  use: nb26(v)
  use: nb27(v)
  use: nb28(v)
  use: nb29(v)
  use: nb30(v)
  use: nb31(v)
  use: nb32(v)
  use: nb33(v)
  use: nb34(v)
  use: nb35(v)
  use: nb36(v)
  use: nb37(v)
  use: nb38(v)
  use: nb39(v)
  use: nb40(v)
  use: nb41(v)
  use: nb42(v)
  use: nb43(v)
  use: nb44(v)
  use: nb45(v)
  use: nb46(v)
  use: nb47(v)
  use: nb48(v)
  use: nb49(v)
  use: nb50(v)
  use: nb51(v)
  use: nb52(v)
  use: nb53(v)
  use: nb54(v)
  use: nb55(v)
  use: nb56(v)
  use: nb57(v)
  use: nb58(v)
  use: nb59(v)
  use: nb60(v)
  use: nb61(v)
  use: nb62(v)
  use: nb63(v)
  ensures: imp(tick(idbit(id, 51)) && tick(idbit(id, 52)) && tick(idbit(id, 53)) && tick(idbit(id, 54)) && tick(idbit(id, 55)) && tick(idbit(id, 56)) && tick(idbit(id, 57)) && tick(idbit(id, 58)) && tick(idbit(id, 59)) && tick(idbit(id, 60)) && tick(idbit(id, 61)) && tick(idbit(id, 62)) && tick(idbit(id, 63)) && tick(idbit(id, 64)) && tick(idbit(id, 65)) && tick(idbit(id, 66)) && tick(idbit(id, 67)) && tick(idbit(id, 68)) && tick(idbit(id, 69)) && tick(idbit(id, 70)) && tick(idbit(id, 71)), ubits(id, 51, 21) == numbv(v))
lemma rt_sscc1(id []byte, r string, cp string, ext string)
  requires: len(id) == 12 && id[0] == 49 && len(cp) == 11 && laycp(id, cp) && isfield(cp, cpb(len(cp))) && layref(id, cp, ext, 58) && isfield(ext, 58 - cpb(len(cp))) && len(ext) == 6
  use: ub_14_37(id, decval(cp))
  use: decfixed(cp)
  use: ub_51_21(id, decval(ext))
  use: decfixed(ext)
  ensures: imp(tick(idbit(id, 11)) && tick(idbit(id, 12)) && tick(idbit(id, 13)), partition(id) == 1 && epcok(id) && imp(issscc(r, id), r == "urn:epc:id:sscc:" + cp + "." + ext))
lemma ub_48_24(id []byte, v int)
  requires: len(id) == 12 && 0 <= v && v < pow2(24) && carries(id, 48, runes(field(v, 24)))
  use: binstr_width(v, 24)
  use: nb0(v)
  use: nb1(v)
  use: nb2(v)
  use: nb3(v)
  use: nb4(v)
  use: nb5(v)
  use: nb6(v)
  use: nb7(v)
  use: nb8(v)
  use: nb9(v)
  use: nb10(v)
  use: nb11(v)
  use: nb12(v)
  use: nb13(v)
  use: nb14(v)
  use: nb15(v)
  use: nb16(v)
  use: nb17(v)
  use: nb18(v)
  use: nb19(v)
  use: nb20(v)
  use: nb21(v)
  use: nb22(v)
  use: nb23(v)
  use: nb24(v)
  use: nb25(v)
  use: nb26(v)
  use: nb27(v)
  use: nb28(v)
  use: nb29(v)
  use: nb30(v)
  use: nb31(v)
  use: nb32(v)
  use: nb33(v)
  use: nb34(v)
  use: nb35(v)
  use: nb36(v)
  use: nb37(v)
  use: nb38(v)
  use: nb39(v)
  use: nb40(v)
  use: nb41(v)
  use: nb42(v)
  use: nb43(v)
  use: nb44(v)
  use: nb45(v)
  use: nb46(v)
  use: nb47(v)
  use: nb48(v)
  use: nb49(v)
  use: nb50(v)
  use: nb51(v)
  use: nb52(v)
  use: nb53(v)
  use: nb54(v)
  use: nb55(v)
  use: nb56(v)
  use: nb57(v)
  use: nb58(v)
  use: nb59(v)
  use: nb60(v)
  use: nb61(v)
  use: nb62(v)
  use: nb63(v)
  ensures: imp(tick(idbit(id, 48)) && tick(idbit(id, 49)) && tick(idbit(id, 50)) && tick(idbit(id, 51)) && tick(idbit(id, 52)) && tick(idbit(id, 53)) && tick(idbit(id, 54)) && tick(idbit(id, 55)) && tick(idbit(id, 56)) && tick(idbit(id, 57)) && tick(idbit(id, 58)) && tick(idbit(id, 59)) && tick(idbit(id, 60)) && tick(idbit(id, 61)) && tick(idbit(id, 62)) && tick(idbit(id, 63)) && tick(idbit(id, 64)) && tick(idbit(id, 65)) && tick(idbit(id, 66)) && tick(idbit(id, 67)) && tick(idbit(id, 68)) && tick(idbit(id, 69)) && tick(idbit(id, 70)) && tick(idbit(id, 71)), ubits(id, 48, 24) == numbv(v))
lemma rt_sscc2(id []byte, r string, cp string, ext string)
  requires: len(id) == 12 && id[0] == 49 && len(cp) == 10 && laycp(id, cp) && isfield(cp, cpb(len(cp))) && layref(id, cp, ext, 58) && isfield(ext, 58 - cpb(len(cp))) && len(ext) == 7
  use: ub_14_34(id, decval(cp))
  use: decfixed(cp)
  use: ub_48_24(id, decval(ext))
  use: decfixed(ext)
  ensures: imp(tick(idbit(id, 11)) && tick(idbit(id, 12)) && tick(idbit(id, 13)), partition(id) == 2 && epcok(id) && imp(issscc(r, id), r == "urn:epc:id:sscc:" + cp + "." + ext))
lemma ub_44_28(id []byte, v int)
  requires: len(id) == 12 && 0 <= v && v < pow2(28) && carries(id, 44, runes(field(v, 28)))
  use: binstr_width(v, 28)
  use: nb0(v)
  use: nb1(v)
  use: nb2(v)
  use: nb3(v)
  use: nb4(v)
  use: nb5(v)
  use: nb6(v)
  use: nb7(v)
  use: nb8(v)
  use: nb9(v)
  use: nb10(v)
  use: nb11(v)
  use: nb12(v)
  use: nb13(v)
  use: nb14(v)
  use: nb15(v)
  use: nb16(v)
  use: nb17(v)
  use: nb18(v)
  use: nb19(v)
  use: nb20(v)
  use: nb21(v)
  use: nb22(v)
  use: nb23(v)
  use: nb24(v)
  use: nb25(v)
  use: nb26(v)
  use: nb27(v)
  use: nb28(v)
  use: nb29(v)
  use: nb30(v)
  use: nb31(v)
  use: nb32(v)
  use: nb33(v)
  use: nb34(v)
  use: nb35(v)
  use: nb36(v)
  use: nb37(v)
  use: nb38(v)
  use: nb39(v)
  use: nb40(v)
  use: nb41(v)
  use: nb42(v)
  use: nb43(v)
  use: nb44(v)
  use: nb45(v)
  use: nb46(v)
  use: nb47(v)
  use: nb48(v)
  use: nb49(v)
  use: nb50(v)
  use: nb51(v)
  use: nb52(v)
  use: nb53(v)
  use: nb54(v)
  use: nb55(v)
  use: nb56(v)
  use: nb57(v)
  use: nb58(v)
  use: nb59(v)
  use: nb60(v)
  use: nb61(v)
  use: nb62(v)
  use: nb63(v)
  ensures: imp(tick(idbit(id, 44)) && tick(idbit(id, 45)) && tick(idbit(id, 46)) && tick(idbit(id, 47)) && tick(idbit(id, 48)) && tick(idbit(id, 49)) && tick(idbit(id, 50)) && tick(idbit(id, 51)) && tick(idbit(id, 52)) && tick(idbit(id, 53)) && tick(idbit(id, 54)) && tick(idbit(id, 55)) && tick(idbit(id, 56)) && tick(idbit(id, 57)) && tick(idbit(id, 58)) && tick(idbit(id, 59)) && tick(idbit(id, 60)) && tick(idbit(id, 61)) && tick(idbit(id, 62)) && tick(idbit(id, 63)) && tick(idbit(id, 64)) && tick(idbit(id, 65)) && tick(idbit(id, 66)) && tick(idbit(id, 67)) && tick(idbit(id, 68)) && tick(idbit(id, 69)) && tick(idbit(id, 70)) && tick(idbit(id, 71)), ubits(id, 44, 28) == numbv(v))
lemma rt_sscc3(id []byte, r string, cp string, ext string)
  requires: len(id) == 12 && id[0] == 49 && len(cp) == 9 && laycp(id, cp) && isfield(cp, cpb(len(cp))) && layref(id, cp, ext, 58) && isfield(ext, 58 - cpb(len(cp))) && len(ext) == 8
  use: ub_14_30(id, decval(cp))
  use: decfixed(cp)
  use: ub_44_28(id, decval(ext))
  use: decfixed(ext)
  ensures: imp(tick(idbit(id, 11)) && tick(idbit(id, 12)) && tick(idbit(id, 13)), partition(id) == 3 && epcok(id) && imp(issscc(r, id), r == "urn:epc:id:sscc:" + cp + "." + ext))
lemma ub_41_31(id []byte, v int)
  requires: len(id) == 12 && 0 <= v && v < pow2(31) && carries(id, 41, runes(field(v, 31)))
  use: binstr_width(v, 31)
  use: nb0(v)
  use: nb1(v)
  use: nb2(v)
  use: nb3(v)
  use: nb4(v)
  use: nb5(v)
  use: nb6(v)
  use: nb7(v)
  use: nb8(v)
  use: nb9(v)
  use: nb10(v)
  use: nb11(v)
  use: nb12(v)
  use: nb13(v)
  use: nb14(v)
  use: nb15(v)
  use: nb16(v)
  use: nb17(v)
  use: nb18(v)
  use: nb19(v)
  use: nb20(v)
  use: nb21(v)
  use: nb22(v)
  use: nb23(v)
  use: nb24(v)
  use: nb25(v)
  use: nb26(v)
  use: nb27(v)
  use: nb28(v)
  use: nb29(v)
  use: nb30(v)
  use: nb31(v)
  use: nb32(v)
  use: nb33(v)
  use: nb34(v)
  use: nb35(v)
  use: nb36(v)
  use: nb37(v)
  use: nb38(v)
  use: nb39(v)
  use: nb40(v)
  use: nb41(v)
  use: nb42(v)
  use: nb43(v)
  use: nb44(v)
  use: nb45(v)
  use: nb46(v)
  use: nb47(v)
  use: nb48(v)
  use: nb49(v)
  use: nb50(v)
  use: nb51(v)
  use: nb52(v)
  use: nb53(v)
  use: nb54(v)
  use: nb55(v)
  use: nb56(v)
  use: nb57(v)
  use: nb58(v)
  use: nb59(v)
  use: nb60(v)
  use: nb61(v)
  use: nb62(v)
  use: nb63(v)
  ensures: imp(tick(idbit(id, 41)) && tick(idbit(id, 42)) && tick(idbit(id, 43)) && tick(idbit(id, 44)) && tick(idbit(id, 45)) && tick(idbit(id, 46)) && tick(idbit(id, 47)) && tick(idbit(id, 48)) && tick(idbit(id, 49)) && tick(idbit(id, 50)) && tick(idbit(id, 51)) && tick(idbit(id, 52)) && tick(idbit(id, 53)) && tick(idbit(id, 54)) && tick(idbit(id, 55)) && tick(idbit(id, 56)) && tick(idbit(id, 57)) && tick(idbit(id, 58)) && tick(idbit(id, 59)) && tick(idbit(id, 60)) && tick(idbit(id, 61)) && tick(idbit(id, 62)) && tick(idbit(id, 63)) && tick(idbit(id, 64)) && tick(idbit(id, 65)) && tick(idbit(id, 66)) && tick(idbit(id, 67)) && tick(idbit(id, 68)) && tick(idbit(id, 69)) && tick(idbit(id, 70)) && tick(idbit(id, 71)), ubits(id, 41, 31) == numbv(v))
lemma rt_sscc4(id []byte, r string, cp string, ext string)
  requires: len(id) == 12 && id[0] == 49 && len(cp) == 8 && laycp(id, cp) && isfield(cp, cpb(len(cp))) && layref(id, cp, ext, 58) && isfield(ext, 58 - cpb(len(cp))) && len(ext) == 9
  use: ub_14_27(id, decval(cp))
  use: decfixed(cp)
  use: ub_41_31(id, decval(ext))
  use: decfixed(ext)
  ensures: imp(tick(idbit(id, 11)) && tick(idbit(id, 12)) && tick(idbit(id, 13)), partition(id) == 4 && epcok(id) && imp(issscc(r, id), r == "urn:epc:id:sscc:" + cp + "." + ext))
lemma ub_38_34(id []byte, v int)
  requires: len(id) == 12 && 0 <= v && v < pow2(34) && carries(id, 38, runes(field(v, 34)))
  use: binstr_width(v, 34)
  use: nb0(v)
  use: nb1(v)
  use: nb2(v)
  use: nb3(v)
  use: nb4(v)
  use: nb5(v)
  use: nb6(v)
  use: nb7(v)
  use: nb8(v)
  use: nb9(v)
  use: nb10(v)
  use: nb11(v)
  use: nb12(v)
  use: nb13(v)
  use: nb14(v)
  use: nb15(v)
  use: nb16(v)
  use: nb17(v)
  use: nb18(v)
  use: nb19(v)
  use: nb20(v)
  use: nb21(v)
  use: nb22(v)
  use: nb23(v)
  use: nb24(v)
  use: nb25(v)
  use: nb26(v)
  use: nb27(v)
  use: nb28(v)
  use: nb29(v)
  use: nb30(v)
  use: nb31(v)
  use: nb32(v)
  use: nb33(v)
  use: nb34(v)
  use: nb35(v)
  use: nb36(v)
  use: nb37(v)
  use: nb38(v)
  use: nb39(v)
  use: nb40(v)
  use: nb41(v)
  use: nb42(v)
  use: nb43(v)
  use: nb44(v)
  use: nb45(v)
  use: nb46(v)
  use: nb47(v)
  use: nb48(v)
  use: nb49(v)
  use: nb50(v)
  use: nb51(v)
  use: nb52(v)
  use: nb53(v)
  use: nb54(v)
  use: nb55(v)
  use: nb56(v)
  use: nb57(v)
  use: nb58(v)
  use: nb59(v)
  use: nb60(v)
  use: nb61(v)
  use: nb62(v)
  use: nb63(v)
  ensures: imp(tick(idbit(id, 38)) && tick(idbit(id, 39)) && tick(idbit(id, 40)) && tick(idbit(id, 41)) && tick(idbit(id, 42)) && tick(idbit(id, 43)) && tick(idbit(id, 44)) && tick(idbit(id, 45)) && tick(idbit(id, 46)) && tick(idbit(id, 47)) && tick(idbit(id, 48)) && tick(idbit(id, 49)) && tick(idbit(id, 50)) && tick(idbit(id, 51)) && tick(idbit(id, 52)) && tick(idbit(id, 53)) && tick(idbit(id, 54)) && tick(idbit(id, 55)) && tick(idbit(id, 56)) && tick(idbit(id, 57)) && tick(idbit(id, 58)) && tick(idbit(id, 59)) && tick(idbit(id, 60)) && tick(idbit(id, 61)) && tick(idbit(id, 62)) && tick(idbit(id, 63)) && tick(idbit(id, 64)) && tick(idbit(id, 65)) && tick(idbit(id, 66)) && tick(idbit(id, 67)) && tick(idbit(id, 68)) && tick(idbit(id, 69)) && tick(idbit(id, 70)) && tick(idbit(id, 71)), ubits(id, 38, 34) == numbv(v))
lemma rt_sscc5(id []byte, r string, cp string, ext string)
  requires: len(id) == 12 && id[0] == 49 && len(cp) == 7 && laycp(id, cp) && isfield(cp, cpb(len(cp))) && layref(id, cp, ext, 58) && isfield(ext, 58 - cpb(len(cp))) && len(ext) == 10
  use: ub_14_24(id, decval(cp))
  use: decfixed(cp)
  use: ub_38_34(id, decval(ext))
  use: decfixed(ext)
  ensures: imp(tick(idbit(id, 11)) && tick(idbit(id, 12)) && tick(idbit(id, 13)), partition(id) == 5 && epcok(id) && imp(issscc(r, id), r == "urn:epc:id:sscc:" + cp + "." + ext))
lemma ub_34_38(id []byte, v int)
  requires: len(id) == 12 && 0 <= v && v < pow2(38) && carries(id, 34, runes(field(v, 38)))
  use: binstr_width(v, 38)
  use: nb0(v)
  use: nb1(v)
  use: nb2(v)
  use: nb3(v)
  use: nb4(v)
  use: nb5(v)
  use: nb6(v)
  use: nb7(v)
  use: nb8(v)
  use: nb9(v)
  use: nb10(v)
  use: nb11(v)
  use: nb12(v)
  use: nb13(v)
  use: nb14(v)
  use: nb15(v)
  use: nb16(v)
  use: nb17(v)
  use: nb18(v)
  use: nb19(v)
  use: nb20(v)
  use: nb21(v)
  use: nb22(v)
  use: nb23(v)
  use: nb24(v)
  use: nb25(v)
  use: nb26(v)
  use: nb27(v)
  use: nb28(v)
  use: nb29(v)
  use: nb30(v)
  use: nb31(v)
  use: nb32(v)
  use: nb33(v)
  use: nb34(v)
  use: nb35(v)
  use: nb36(v)
  use: nb37(v)
  use: nb38(v)
  use: nb39(v)
  use: nb40(v)
  use: nb41(v)
  use: nb42(v)
  use: nb43(v)
  use: nb44(v)
  use: nb45(v)
  use: nb46(v)
  use: nb47(v)
  use: nb48(v)
  use: nb49(v)
  use: nb50(v)
  use: nb51(v)
  use: nb52(v)
  use: nb53(v)
  use: nb54(v)
  use: nb55(v)
  use: nb56(v)
  use: nb57(v)
  use: nb58(v)
  use: nb59(v)
  use: nb60(v)
  use: nb61(v)
  use: nb62(v)
  use: nb63(v)
  ensures: imp(tick(idbit(id, 34)) && tick(idbit(id, 35)) && tick(idbit(id, 36)) && tick(idbit(id, 37)) && tick(idbit(id, 38)) && tick(idbit(id, 39)) && tick(idbit(id, 40)) && tick(idbit(id, 41)) && tick(idbit(id, 42)) && tick(idbit(id, 43)) && tick(idbit(id, 44)) && tick(idbit(id, 45)) && tick(idbit(id, 46)) && tick(idbit(id, 47)) && tick(idbit(id, 48)) && tick(idbit(id, 49)) && tick(idbit(id, 50)) && tick(idbit(id, 51)) && tick(idbit(id, 52)) && tick(idbit(id, 53)) && tick(idbit(id, 54)) && tick(idbit(id, 55)) && tick(idbit(id, 56)) && tick(idbit(id, 57)) && tick(idbit(id, 58)) && tick(idbit(id, 59)) && tick(idbit(id, 60)) && tick(idbit(id, 61)) && tick(idbit(id, 62)) && tick(idbit(id, 63)) && tick(idbit(id, 64)) && tick(idbit(id, 65)) && tick(idbit(id, 66)) && tick(idbit(id, 67)) && tick(idbit(id, 68)) && tick(idbit(id, 69)) && tick(idbit(id, 70)) && tick(idbit(id, 71)), ubits(id, 34, 38) == numbv(v))
lemma rt_sscc6(id []byte, r string, cp string, ext string)
  requires: len(id) == 12 && id[0] == 49 && len(cp) == 6 && laycp(id, cp) && isfield(cp, cpb(len(cp))) && layref(id, cp, ext, 58) && isfield(ext, 58 - cpb(len(cp))) && len(ext) == 11
  use: ub_14_20(id, decval(cp))
  use: decfixed(cp)
  use: ub_34_38(id, decval(ext))
  use: decfixed(ext)
  ensures: imp(tick(idbit(id, 11)) && tick(idbit(id, 12)) && tick(idbit(id, 13)), partition(id) == 6 && epcok(id) && imp(issscc(r, id), r == "urn:epc:id:sscc:" + cp + "." + ext))
// made by MakeSSCC96, read by Translate
lemma rt_sscc(id []byte, r string, cp string, ext string, pc []byte)
  requires: 6 <= len(cp) && len(cp) <= 12 && len(id) == 12 && id[0] == 49 && laycp(id, cp) && isfield(cp, cpb(len(cp))) && layref(id, cp, ext, 58) && isfield(ext, 58 - cpb(len(cp))) && len(ext) == 17 - len(cp)
  hide: idbit bit8
  cases: len(cp) == 12; len(cp) == 11; len(cp) == 10; len(cp) == 9; len(cp) == 8; len(cp) == 7
  use: rt_sscc0(id, r, cp, ext)
  use: rt_sscc1(id, r, cp, ext)
  use: rt_sscc2(id, r, cp, ext)
  use: rt_sscc3(id, r, cp, ext)
  use: rt_sscc4(id, r, cp, ext)
  use: rt_sscc5(id, r, cp, ext)
  use: rt_sscc6(id, r, cp, ext)
  ensures: epcok(id) && imp(issscc(r, id), r == "urn:epc:id:sscc:" + cp + "." + ext)
lemma ub_54_42(id []byte, v int)
  requires: len(id) == 12 && 0 <= v && v < pow2(42) && carries(id, 54, runes(field(v, 42)))
  use: binstr_width(v, 42)
  use: nb0(v)
  use: nb1(v)
  use: nb2(v)
  use: nb3(v)
  use: nb4(v)
  use: nb5(v)
  use: nb6(v)
  use: nb7(v)
  use: nb8(v)
  use: nb9(v)
  use: nb10(v)
  use: nb11(v)
  use: nb12(v)
  use: nb13(v)
  use: nb14(v)
  use: nb15(v)
  use: nb16(v)
  use: nb17(v)
  use: nb18(v)
  use: nb19(v)
  use: nb20(v)
  use: nb21(v)
  use: nb22(v)
  use: nb23(v)
  use: nb24(v)
  use: nb25(v)
  use: nb26(v)
  use: nb27(v)
  use: nb28(v)
  use: nb29(v)
  use: nb30(v)
  use: nb31(v)
  use: nb32(v)
  use: nb33(v)
  use: nb34(v)
  use: nb35(v)
  use: nb36(v)
  use: nb37(v)
  use: nb38(v)
  use: nb39(v)
  use: nb40(v)
  use: nb41(v)
  use: nb42(v)
  use: nb43(v)
  use: nb44(v)
  use: nb45(v)
  use: nb46(v)
  use: nb47(v)
  use: nb48(v)
  use: nb49(v)
  use: nb50(v)
  use: nb51(v)
  use: nb52(v)
  use: nb53(v)
  use: nb54(v)
  use: nb55(v)
  use: nb56(v)
  use: nb57(v)
  use: nb58(v)
  use: nb59(v)
  use: nb60(v)
  use: nb61(v)
  use: nb62(v)
  use: nb63(v)
  ensures: imp(tick(idbit(id, 54)) && tick(idbit(id, 55)) && tick(idbit(id, 56)) && tick(idbit(id, 57)) && tick(idbit(id, 58)) && tick(idbit(id, 59)) && tick(idbit(id, 60)) && tick(idbit(id, 61)) && tick(idbit(id, 62)) && tick(idbit(id, 63)) && tick(idbit(id, 64)) && tick(idbit(id, 65)) && tick(idbit(id, 66)) && tick(idbit(id, 67)) && tick(idbit(id, 68)) && tick(idbit(id, 69)) && tick(idbit(id, 70)) && tick(idbit(id, 71)) && tick(idbit(id, 72)) && tick(idbit(id, 73)) && tick(idbit(id, 74)) && tick(idbit(id, 75)) && tick(idbit(id, 76)) && tick(idbit(id, 77)) && tick(idbit(id, 78)) && tick(idbit(id, 79)) && tick(idbit(id, 80)) && tick(idbit(id, 81)) && tick(idbit(id, 82)) && tick(idbit(id, 83)) && tick(idbit(id, 84)) && tick(idbit(id, 85)) && tick(idbit(id, 86)) && tick(idbit(id, 87)) && tick(idbit(id, 88)) && tick(idbit(id, 89)) && tick(idbit(id, 90)) && tick(idbit(id, 91)) && tick(idbit(id, 92)) && tick(idbit(id, 93)) && tick(idbit(id, 94)) && tick(idbit(id, 95)), ubits(id, 54, 42) == numbv(v))
lemma rt_giai0(id []byte, r string, cp string, iar string)
  requires: len(id) == 12 && id[0] == 52 && len(cp) == 12 && laycp(id, cp) && isfield(cp, cpb(len(cp))) && layref(id, cp, iar, 82) && isfield(iar, 82 - cpb(len(cp))) && canon(iar)
  use: ub_14_40(id, decval(cp))
  use: decfixed(cp)
  use: ub_54_42(id, decval(iar))
  use: decfixed(iar)
  ensures: imp(tick(idbit(id, 11)) && tick(idbit(id, 12)) && tick(idbit(id, 13)), partition(id) == 0 && epcok(id) && imp(isgiai(r, id), r == "urn:epc:id:giai:" + cp + "." + iar))
lemma ub_51_45(id []byte, v int)
  requires: len(id) == 12 && 0 <= v && v < pow2(45) && carries(id, 51, runes(field(v, 45)))
  use: binstr_width(v, 45)
  use: nb0(v)
  use: nb1(v)
  use: nb2(v)
  use: nb3(v)
  use: nb4(v)
  use: nb5(v)
  use: nb6(v)
  use: nb7(v)
  use: nb8(v)
  use: nb9(v)
  use: nb10(v)
  use: nb11(v)
  use: nb12(v)
  use: nb13(v)
  use: nb14(v)
  use: nb15(v)
  use: nb16(v)
  use: nb17(v)
  use: nb18(v)
  use: nb19(v)
  use: nb20(v)
  use: nb21(v)
  use: nb22(v)
  use: nb23(v)
  use: nb24(v)
  use: nb25(v)
  use: nb26(v)
  use: nb27(v)
  use: nb28(v)
  use: nb29(v)
  use: nb30(v)
  use: nb31(v)
  use: nb32(v)
  use: nb33(v)
  use: nb34(v)
  use: nb35(v)
  use: nb36(v)
  use: nb37(v)
  use: nb38(v)
  use: nb39(v)
  use: nb40(v)
  use: nb41(v)
  use: nb42(v)
  use: nb43(v)
  use: nb44(v)
  use: nb45(v)
  use: nb46(v)
  use: nb47(v)
  use: nb48(v)
  use: nb49(v)
  use: nb50(v)
  use: nb51(v)
  use: nb52(v)
  use: nb53(v)
  use: nb54(v)
  use: nb55(v)
  use: nb56(v)
  use: nb57(v)
  use: nb58(v)
  use: nb59(v)
  use: nb60(v)
  use: nb61(v)
  use: nb62(v)
  use: nb63(v)
  ensures: imp(tick(idbit(id, 51)) && tick(idbit(id, 52)) && tick(idbit(id, 53)) && tick(idbit(id, 54)) && tick(idbit(id, 55)) && tick(idbit(id, 56)) && tick(idbit(id, 57)) && tick(idbit(id, 58)) && tick(idbit(id, 59)) && tick(idbit(id, 60)) && tick(idbit(id, 61)) && tick(idbit(id, 62)) && tick(idbit(id, 63)) && tick(idbit(id, 64)) && tick(idbit(id, 65)) && tick(idbit(id, 66)) && tick(idbit(id, 67)) && tick(idbit(id, 68)) && tick(idbit(id, 69)) && tick(idbit(id, 70)) && tick(idbit(id, 71)) && tick(idbit(id, 72)) && tick(idbit(id, 73)) && tick(idbit(id, 74)) && tick(idbit(id, 75)) && tick(idbit(id, 76)) && tick(idbit(id, 77)) && tick(idbit(id, 78)) && tick(idbit(id, 79)) && tick(idbit(id, 80)) && tick(idbit(id, 81)) && tick(idbit(id, 82)) && tick(idbit(id, 83)) && tick(idbit(id, 84)) && tick(idbit(id, 85)) && tick(idbit(id, 86)) && tick(idbit(id, 87)) && tick(idbit(id, 88)) && tick(idbit(id, 89)) && tick(idbit(id, 90)) && tick(idbit(id, 91)) && tick(idbit(id, 92)) && tick(idbit(id, 93)) && tick(idbit(id, 94)) && tick(idbit(id, 95)), ubits(id, 51, 45) == numbv(v))
lemma rt_giai1(id []byte, r string, cp string, iar string)
  requires: len(id) == 12 && id[0] == 52 && len(cp) == 11 && laycp(id, cp) && isfield(cp, cpb(len(cp))) && layref(id, cp, iar, 82) && isfield(iar, 82 - cpb(len(cp))) && canon(iar)
  use: ub_14_37(id, decval(cp))
  use: decfixed(cp)
  use: ub_51_45(id, decval(iar))
  use: decfixed(iar)
  ensures: imp(tick(idbit(id, 11)) && tick(idbit(id, 12)) && tick(idbit(id, 13)), partition(id) == 1 && epcok(id) && imp(isgiai(r, id), r == "urn:epc:id:giai:" + cp + "." + iar))
lemma ub_48_48(id []byte, v int)
  requires: len(id) == 12 && 0 <= v && v < pow2(48) && carries(id, 48, runes(field(v, 48)))
  use: binstr_width(v, 48)
  use: nb0(v)
  use: nb1(v)
  use: nb2(v)
  use: nb3(v)
  use: nb4(v)
  use: nb5(v)
  use: nb6(v)
  use: nb7(v)
  use: nb8(v)
  use: nb9(v)
  use: nb10(v)
  use: nb11(v)
  use: nb12(v)
  use: nb13(v)
  use: nb14(v)
  use: nb15(v)
  use: nb16(v)
  use: nb17(v)
  use: nb18(v)
  use: nb19(v)
  use: nb20(v)
  use: nb21(v)
  use: nb22(v)
  use: nb23(v)
  use: nb24(v)
  use: nb25(v)
  use: nb26(v)
  use: nb27(v)
  use: nb28(v)
  use: nb29(v)
  use: nb30(v)
  use: nb31(v)
  use: nb32(v)
  use: nb33(v)
  use: nb34(v)
  use: nb35(v)
  use: nb36(v)
  use: nb37(v)
  use: nb38(v)
  use: nb39(v)
  use: nb40(v)
  use: nb41(v)
  use: nb42(v)
  use: nb43(v)
  use: nb44(v)
  use: nb45(v)
  use: nb46(v)
  use: nb47(v)
  use: nb48(v)
  use: nb49(v)
  use: nb50(v)
  use: nb51(v)
  use: nb52(v)
  use: nb53(v)
  use: nb54(v)
  use: nb55(v)
  use: nb56(v)
  use: nb57(v)
  use: nb58(v)
  use: nb59(v)
  use: nb60(v)
  use: nb61(v)
  use: nb62(v)
  use: nb63(v)
  ensures: imp(tick(idbit(id, 48)) && tick(idbit(id, 49)) && tick(idbit(id, 50)) && tick(idbit(id, 51)) && tick(idbit(id, 52)) && tick(idbit(id, 53)) && tick(idbit(id, 54)) && tick(idbit(id, 55)) && tick(idbit(id, 56)) && tick(idbit(id, 57)) && tick(idbit(id, 58)) && tick(idbit(id, 59)) && tick(idbit(id, 60)) && tick(idbit(id, 61)) && tick(idbit(id, 62)) && tick(idbit(id, 63)) && tick(idbit(id, 64)) && tick(idbit(id, 65)) && tick(idbit(id, 66)) && tick(idbit(id, 67)) && tick(idbit(id, 68)) && tick(idbit(id, 69)) && tick(idbit(id, 70)) && tick(idbit(id, 71)) && tick(idbit(id, 72)) && tick(idbit(id, 73)) && tick(idbit(id, 74)) && tick(idbit(id, 75)) && tick(idbit(id, 76)) && tick(idbit(id, 77)) && tick(idbit(id, 78)) && tick(idbit(id, 79)) && tick(idbit(id, 80)) && tick(idbit(id, 81)) && tick(idbit(id, 82)) && tick(idbit(id, 83)) && tick(idbit(id, 84)) && tick(idbit(id, 85)) && tick(idbit(id, 86)) && tick(idbit(id, 87)) && tick(idbit(id, 88)) && tick(idbit(id, 89)) && tick(idbit(id, 90)) && tick(idbit(id, 91)) && tick(idbit(id, 92)) && tick(idbit(id, 93)) && tick(idbit(id, 94)) && tick(idbit(id, 95)), ubits(id, 48, 48) == numbv(v))
lemma rt_giai2(id []byte, r string, cp string, iar string)
  requires: len(id) == 12 && id[0] == 52 && len(cp) == 10 && laycp(id, cp) && isfield(cp, cpb(len(cp))) && layref(id, cp, iar, 82) && isfield(iar, 82 - cpb(len(cp))) && canon(iar)
  use: ub_14_34(id, decval(cp))
  use: decfixed(cp)
  use: ub_48_48(id, decval(iar))
  use: decfixed(iar)
  ensures: imp(tick(idbit(id, 11)) && tick(idbit(id, 12)) && tick(idbit(id, 13)), partition(id) == 2 && epcok(id) && imp(isgiai(r, id), r == "urn:epc:id:giai:" + cp + "." + iar))
lemma ub_44_52(id []byte, v int)
  requires: len(id) == 12 && 0 <= v && v < pow2(52) && carries(id, 44, runes(field(v, 52)))
  use: binstr_width(v, 52)
  use: nb0(v)
  use: nb1(v)
  use: nb2(v)
  use: nb3(v)
  use: nb4(v)
  use: nb5(v)
  use: nb6(v)
  use: nb7(v)
  use: nb8(v)
  use: nb9(v)
  use: nb10(v)
  use: nb11(v)
  use: nb12(v)
  use: nb13(v)
  use: nb14(v)
  use: nb15(v)
  use: nb16(v)
  use: nb17(v)
  use: nb18(v)
  use: nb19(v)
  use: nb20(v)
  use: nb21(v)
  use: nb22(v)
  use: nb23(v)
  use: nb24(v)
  use: nb25(v)
  use: nb26(v)
  use: nb27(v)
  use: nb28(v)
  use: nb29(v)
  use: nb30(v)
  use: nb31(v)
  use: nb32(v)
  use: nb33(v)
  use: nb34(v)
  use: nb35(v)
  use: nb36(v)
  use: nb37(v)
  use: nb38(v)
  use: nb39(v)
  use: nb40(v)
  use: nb41(v)
  use: nb42(v)
  use: nb43(v)
  use: nb44(v)
  use: nb45(v)
  use: nb46(v)
  use: nb47(v)
  use: nb48(v)
  use: nb49(v)
  use: nb50(v)
  use: nb51(v)
  use: nb52(v)
  use: nb53(v)
  use: nb54(v)
  use: nb55(v)
  use: nb56(v)
  use: nb57(v)
  use: nb58(v)
  use: nb59(v)
  use: nb60(v)
  use: nb61(v)
  use: nb62(v)
  use: nb63(v)
  ensures: imp(tick(idbit(id, 44)) && tick(idbit(id, 45)) && tick(idbit(id, 46)) && tick(idbit(id, 47)) && tick(idbit(id, 48)) && tick(idbit(id, 49)) && tick(idbit(id, 50)) && tick(idbit(id, 51)) && tick(idbit(id, 52)) && tick(idbit(id, 53)) && tick(idbit(id, 54)) && tick(idbit(id, 55)) && tick(idbit(id, 56)) && tick(idbit(id, 57)) && tick(idbit(id, 58)) && tick(idbit(id, 59)) && tick(idbit(id, 60)) && tick(idbit(id, 61)) && tick(idbit(id, 62)) && tick(idbit(id, 63)) && tick(idbit(id, 64)) && tick(idbit(id, 65)) && tick(idbit(id, 66)) && tick(idbit(id, 67)) && tick(idbit(id, 68)) && tick(idbit(id, 69)) && tick(idbit(id, 70)) && tick(idbit(id, 71)) && tick(idbit(id, 72)) && tick(idbit(id, 73)) && tick(idbit(id, 74)) && tick(idbit(id, 75)) && tick(idbit(id, 76)) && tick(idbit(id, 77)) && tick(idbit(id, 78)) && tick(idbit(id, 79)) && tick(idbit(id, 80)) && tick(idbit(id, 81)) && tick(idbit(id, 82)) && tick(idbit(id, 83)) && tick(idbit(id, 84)) && tick(idbit(id, 85)) && tick(idbit(id, 86)) && tick(idbit(id, 87)) && tick(idbit(id, 88)) && tick(idbit(id, 89)) && tick(idbit(id, 90)) && tick(idbit(id, 91)) && tick(idbit(id, 92)) && tick(idbit(id, 93)) && tick(idbit(id, 94)) && tick(idbit(id, 95)), ubits(id, 44, 52) == numbv(v))
lemma rt_giai3(id []byte, r string, cp string, iar string)
  requires: len(id) == 12 && id[0] == 52 && len(cp) == 9 && laycp(id, cp) && isfield(cp, cpb(len(cp))) && layref(id, cp, iar, 82) && isfield(iar, 82 - cpb(len(cp))) && canon(iar)
  use: ub_14_30(id, decval(cp))
  use: decfixed(cp)
  use: ub_44_52(id, decval(iar))
  use: decfixed(iar)
  ensures: imp(tick(idbit(id, 11)) && tick(idbit(id, 12)) && tick(idbit(id, 13)), partition(id) == 3 && epcok(id) && imp(isgiai(r, id), r == "urn:epc:id:giai:" + cp + "." + iar))
lemma ub_41_55(id []byte, v int)
  requires: len(id) == 12 && 0 <= v && v < pow2(55) && carries(id, 41, runes(field(v, 55)))
  use: binstr_width(v, 55)
  use: nb0(v)
  use: nb1(v)
  use: nb2(v)
  use: nb3(v)
  use: nb4(v)
  use: nb5(v)
  use: nb6(v)
  use: nb7(v)
  use: nb8(v)
  use: nb9(v)
  use: nb10(v)
  use: nb11(v)
  use: nb12(v)
  use: nb13(v)
  use: nb14(v)
  use: nb15(v)
  use: nb16(v)
  use: nb17(v)
  use: nb18(v)
  use: nb19(v)
  use: nb20(v)
  use: nb21(v)
  use: nb22(v)
  use: nb23(v)
  use: nb24(v)
  use: nb25(v)
  use: nb26(v)
  use: nb27(v)
  use: nb28(v)
  use: nb29(v)
  use: nb30(v)
  use: nb31(v)
  use: nb32(v)
  use: nb33(v)
  use: nb34(v)
  use: nb35(v)
  use: nb36(v)
  use: nb37(v)
  use: nb38(v)
  use: nb39(v)
  use: nb40(v)
  use: nb41(v)
  use: nb42(v)
  use: nb43(v)
  use: nb44(v)
  use: nb45(v)
  use: nb46(v)
  use: nb47(v)
  use: nb48(v)
  use: nb49(v)
  use: nb50(v)
  use: nb51(v)
  use: nb52(v)
  use: nb53(v)
  use: nb54(v)
  use: nb55(v)
  use: nb56(v)
  use: nb57(v)
  use: nb58(v)
  use: nb59(v)
  use: nb60(v)
  use: nb61(v)
  use: nb62(v)
  use: nb63(v)
  ensures: imp(tick(idbit(id, 41)) && tick(idbit(id, 42)) && tick(idbit(id, 43)) && tick(idbit(id, 44)) && tick(idbit(id, 45)) && tick(idbit(id, 46)) && tick(idbit(id, 47)) && tick(idbit(id, 48)) && tick(idbit(id, 49)) && tick(idbit(id, 50)) && tick(idbit(id, 51)) && tick(idbit(id, 52)) && tick(idbit(id, 53)) && tick(idbit(id, 54)) && tick(idbit(id, 55)) && tick(idbit(id, 56)) && tick(idbit(id, 57)) && tick(idbit(id, 58)) && tick(idbit(id, 59)) && tick(idbit(id, 60)) && tick(idbit(id, 61)) && tick(idbit(id, 62)) && tick(idbit(id, 63)) && tick(idbit(id, 64)) && tick(idbit(id, 65)) && tick(idbit(id, 66)) && tick(idbit(id, 67)) && tick(idbit(id, 68)) && tick(idbit(id, 69)) && tick(idbit(id, 70)) && tick(idbit(id, 71)) && tick(idbit(id, 72)) && tick(idbit(id, 73)) && tick(idbit(id, 74)) && tick(idbit(id, 75)) && tick(idbit(id, 76)) && tick(idbit(id, 77)) && tick(idbit(id, 78)) && tick(idbit(id, 79)) && tick(idbit(id, 80)) && tick(idbit(id, 81)) && tick(idbit(id, 82)) && tick(idbit(id, 83)) && tick(idbit(id, 84)) && tick(idbit(id, 85)) && tick(idbit(id, 86)) && tick(idbit(id, 87)) && tick(idbit(id, 88)) && tick(idbit(id, 89)) && tick(idbit(id, 90)) && tick(idbit(id, 91)) && tick(idbit(id, 92)) && tick(idbit(id, 93)) && tick(idbit(id, 94)) && tick(idbit(id, 95)), ubits(id, 41, 55) == numbv(v))
lemma rt_giai4(id []byte, r string, cp string, iar string)
  requires: len(id) == 12 && id[0] == 52 && len(cp) == 8 && laycp(id, cp) && isfield(cp, cpb(len(cp))) && layref(id, cp, iar, 82) && isfield(iar, 82 - cpb(len(cp))) && canon(iar)
  use: ub_14_27(id, decval(cp))
  use: decfixed(cp)
  use: ub_41_55(id, decval(iar))
  use: decfixed(iar)
  ensures: imp(tick(idbit(id, 11)) && tick(idbit(id, 12)) && tick(idbit(id, 13)), partition(id) == 4 && epcok(id) && imp(isgiai(r, id), r == "urn:epc:id:giai:" + cp + "." + iar))
lemma ub_38_58(id []byte, v int)
  requires: len(id) == 12 && 0 <= v && v < pow2(58) && carries(id, 38, runes(field(v, 58)))
  use: binstr_width(v, 58)
  use: nb0(v)
  use: nb1(v)
  use: nb2(v)
  use: nb3(v)
  use: nb4(v)
  use: nb5(v)
  use: nb6(v)
  use: nb7(v)
  use: nb8(v)
  use: nb9(v)
  use: nb10(v)
  use: nb11(v)
  use: nb12(v)
  use: nb13(v)
  use: nb14(v)
  use: nb15(v)
  use: nb16(v)
  use: nb17(v)
  use: nb18(v)
  use: nb19(v)
  use: nb20(v)
  use: nb21(v)
  use: nb22(v)
  use: nb23(v)
  use: nb24(v)
  use: nb25(v)
  use: nb26(v)
  use: nb27(v)
  use: nb28(v)
  use: nb29(v)
  use: nb30(v)
  use: nb31(v)
  use: nb32(v)
  use: nb33(v)
  use: nb34(v)
  use: nb35(v)
  use: nb36(v)
  use: nb37(v)
  use: nb38(v)
  use: nb39(v)
  use: nb40(v)
  use: nb41(v)
  use: nb42(v)
  use: nb43(v)
  use: nb44(v)
  use: nb45(v)
  use: nb46(v)
  use: nb47(v)
  use: nb48(v)
  use: nb49(v)
  use: nb50(v)
  use: nb51(v)
  use: nb52(v)
  use: nb53(v)
  use: nb54(v)
  use: nb55(v)
  use: nb56(v)
  use: nb57(v)
  use: nb58(v)
  use: nb59(v)
  use: nb60(v)
  use: nb61(v)
  use: nb62(v)
  use: nb63(v)
  ensures: imp(tick(idbit(id, 38)) && tick(idbit(id, 39)) && tick(idbit(id, 40)) && tick(idbit(id, 41)) && tick(idbit(id, 42)) && tick(idbit(id, 43)) && tick(idbit(id, 44)) && tick(idbit(id, 45)) && tick(idbit(id, 46)) && tick(idbit(id, 47)) && tick(idbit(id, 48)) && tick(idbit(id, 49)) && tick(idbit(id, 50)) && tick(idbit(id, 51)) && tick(idbit(id, 52)) && tick(idbit(id, 53)) && tick(idbit(id, 54)) && tick(idbit(id, 55)) && tick(idbit(id, 56)) && tick(idbit(id, 57)) && tick(idbit(id, 58)) && tick(idbit(id, 59)) && tick(idbit(id, 60)) && tick(idbit(id, 61)) && tick(idbit(id, 62)) && tick(idbit(id, 63)) && tick(idbit(id, 64)) && tick(idbit(id, 65)) && tick(idbit(id, 66)) && tick(idbit(id, 67)) && tick(idbit(id, 68)) && tick(idbit(id, 69)) && tick(idbit(id, 70)) && tick(idbit(id, 71)) && tick(idbit(id, 72)) && tick(idbit(id, 73)) && tick(idbit(id, 74)) && tick(idbit(id, 75)) && tick(idbit(id, 76)) && tick(idbit(id, 77)) && tick(idbit(id, 78)) && tick(idbit(id, 79)) && tick(idbit(id, 80)) && tick(idbit(id, 81)) && tick(idbit(id, 82)) && tick(idbit(id, 83)) && tick(idbit(id, 84)) && tick(idbit(id, 85)) && tick(idbit(id, 86)) && tick(idbit(id, 87)) && tick(idbit(id, 88)) && tick(idbit(id, 89)) && tick(idbit(id, 90)) && tick(idbit(id, 91)) && tick(idbit(id, 92)) && tick(idbit(id, 93)) && tick(idbit(id, 94)) && tick(idbit(id, 95)), ubits(id, 38, 58) == numbv(v))
lemma rt_giai5(id []byte, r string, cp string, iar string)
  requires: len(id) == 12 && id[0] == 52 && len(cp) == 7 && laycp(id, cp) && isfield(cp, cpb(len(cp))) && layref(id, cp, iar, 82) && isfield(iar, 82 - cpb(len(cp))) && canon(iar)
  use: ub_14_24(id, decval(cp))
  use: decfixed(cp)
  use: ub_38_58(id, decval(iar))
  use: decfixed(iar)
  ensures: imp(tick(idbit(id, 11)) && tick(idbit(id, 12)) && tick(idbit(id, 13)), partition(id) == 5 && epcok(id) && imp(isgiai(r, id), r == "urn:epc:id:giai:" + cp + "." + iar))
lemma ub_34_62(id []byte, v int)
  requires: len(id) == 12 && 0 <= v && v < pow2(62) && carries(id, 34, runes(field(v, 62)))
  use: binstr_width(v, 62)
  use: nb0(v)
  use: nb1(v)
  use: nb2(v)
  use: nb3(v)
  use: nb4(v)
  use: nb5(v)
  use: nb6(v)
  use: nb7(v)
  use: nb8(v)
  use: nb9(v)
  use: nb10(v)
  use: nb11(v)
  use: nb12(v)
  use: nb13(v)
  use: nb14(v)
  use: nb15(v)
  use: nb16(v)
  use: nb17(v)
  use: nb18(v)
  use: nb19(v)
  use: nb20(v)
  use: nb21(v)
  use: nb22(v)
  use: nb23(v)
  use: nb24(v)
  use: nb25(v)
  use: nb26(v)
  use: nb27(v)
  use: nb28(v)
  use: nb29(v)
  use: nb30(v)
  use: nb31(v)
  use: nb32(v)
  use: nb33(v)
  use: nb34(v)
  use: nb35(v)
  use: nb36(v)
  use: nb37(v)
  use: nb38(v)
  use: nb39(v)
  use: nb40(v)
  use: nb41(v)
  use: nb42(v)
  use: nb43(v)
  use: nb44(v)
  use: nb45(v)
  use: nb46(v)
  use: nb47(v)
  use: nb48(v)
  use: nb49(v)
  use: nb50(v)
  use: nb51(v)
  use: nb52(v)
  use: nb53(v)
  use: nb54(v)
  use: nb55(v)
  use: nb56(v)
  use: nb57(v)
  use: nb58(v)
  use: nb59(v)
  use: nb60(v)
  use: nb61(v)
  use: nb62(v)
  use: nb63(v)
  ensures: imp(tick(idbit(id, 34)) && tick(idbit(id, 35)) && tick(idbit(id, 36)) && tick(idbit(id, 37)) && tick(idbit(id, 38)) && tick(idbit(id, 39)) && tick(idbit(id, 40)) && tick(idbit(id, 41)) && tick(idbit(id, 42)) && tick(idbit(id, 43)) && tick(idbit(id, 44)) && tick(idbit(id, 45)) && tick(idbit(id, 46)) && tick(idbit(id, 47)) && tick(idbit(id, 48)) && tick(idbit(id, 49)) && tick(idbit(id, 50)) && tick(idbit(id, 51)) && tick(idbit(id, 52)) && tick(idbit(id, 53)) && tick(idbit(id, 54)) && tick(idbit(id, 55)) && tick(idbit(id, 56)) && tick(idbit(id, 57)) && tick(idbit(id, 58)) && tick(idbit(id, 59)) && tick(idbit(id, 60)) && tick(idbit(id, 61)) && tick(idbit(id, 62)) && tick(idbit(id, 63)) && tick(idbit(id, 64)) && tick(idbit(id, 65)) && tick(idbit(id, 66)) && tick(idbit(id, 67)) && tick(idbit(id, 68)) && tick(idbit(id, 69)) && tick(idbit(id, 70)) && tick(idbit(id, 71)) && tick(idbit(id, 72)) && tick(idbit(id, 73)) && tick(idbit(id, 74)) && tick(idbit(id, 75)) && tick(idbit(id, 76)) && tick(idbit(id, 77)) && tick(idbit(id, 78)) && tick(idbit(id, 79)) && tick(idbit(id, 80)) && tick(idbit(id, 81)) && tick(idbit(id, 82)) && tick(idbit(id, 83)) && tick(idbit(id, 84)) && tick(idbit(id, 85)) && tick(idbit(id, 86)) && tick(idbit(id, 87)) && tick(idbit(id, 88)) && tick(idbit(id, 89)) && tick(idbit(id, 90)) && tick(idbit(id, 91)) && tick(idbit(id, 92)) && tick(idbit(id, 93)) && tick(idbit(id, 94)) && tick(idbit(id, 95)), ubits(id, 34, 62) == numbv(v))
lemma rt_giai6(id []byte, r string, cp string, iar string)
  requires: len(id) == 12 && id[0] == 52 && len(cp) == 6 && laycp(id, cp) && isfield(cp, cpb(len(cp))) && layref(id, cp, iar, 82) && isfield(iar, 82 - cpb(len(cp))) && canon(iar)
  use: ub_14_20(id, decval(cp))
  use: decfixed(cp)
  use: ub_34_62(id, decval(iar))
  use: decfixed(iar)
  ensures: imp(tick(idbit(id, 11)) && tick(idbit(id, 12)) && tick(idbit(id, 13)), partition(id) == 6 && epcok(id) && imp(isgiai(r, id), r == "urn:epc:id:giai:" + cp + "." + iar))
// made by MakeGIAI96, read by Translate
lemma rt_giai(id []byte, r string, cp string, iar string, pc []byte)
  requires: 6 <= len(cp) && len(cp) <= 12 && len(id) == 12 && id[0] == 52 && laycp(id, cp) && isfield(cp, cpb(len(cp))) && layref(id, cp, iar, 82) && isfield(iar, 82 - cpb(len(cp))) && canon(iar)
  hide: idbit bit8
  cases: len(cp) == 12; len(cp) == 11; len(cp) == 10; len(cp) == 9; len(cp) == 8; len(cp) == 7
  use: rt_giai0(id, r, cp, iar)
  use: rt_giai1(id, r, cp, iar)
  use: rt_giai2(id, r, cp, iar)
  use: rt_giai3(id, r, cp, iar)
  use: rt_giai4(id, r, cp, iar)
  use: rt_giai5(id, r, cp, iar)
  use: rt_giai6(id, r, cp, iar)
  ensures: epcok(id) && imp(isgiai(r, id), r == "urn:epc:id:giai:" + cp + "." + iar)
