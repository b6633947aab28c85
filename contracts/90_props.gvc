pkg filtering

prop P04
  funcs: filtering.(*PatriciaTrieNode).search filtering.(*PatriciaTrie).Search filtering.getNextBit filtering.(*FilterObject).Match
  lemmas: hits_sound hits_complete lens_inc hits_len match_exact
  harness: filtering TestVerifP04

prop P05
  funcs: filtering.(*PatriciaTrieNode).build filtering.NewPatriciaTrie filtering.Subscriptions.ToByteSubscriptions filtering.ByteSubscriptions.Keys filtering.lcp filtering.NewFilter
  harness: filtering TestVerifP05

prop P06
  funcs: filtering.(*PatriciaTrieNode).add filtering.(*PatriciaTrie).AddSubscription filtering.Subscriptions.ToByteSubscriptions filtering.NewFilter
  harness: filtering TestVerifP06

prop P07
  funcs: filtering.(*PatriciaTrieNode).delete filtering.(*PatriciaTrie).DeleteSubscription filtering.Subscriptions.ToByteSubscriptions filtering.NewFilter
  harness: filtering TestVerifP07

prop P19
  funcs: filtering.lcp filtering.getNextBit
  harness: filtering TestVerifP19

prop P21
  funcs: filtering.Subscriptions.Keys filtering.ByteSubscriptions.Keys filtering.Subscriptions.Clone
  harness: filtering TestVerifP21
  bounded: filtering TestVerifP21Indep
  bound: storage independence of the clone (the contracts speak of values, not of storage): random tables of up to 6 keys with up to 4 patterns each, every later in-place write, append and delete on one side

prop P14
  funcs: tdt.(*Core).Translate tdt.(*Core).buildEPC tdt.(*Core).buildUII tdt.parse6BitEncodedByteSliceToString
  harness: tdt TestVerifTranslate

prop P18
  funcs: tdt.parse6BitEncodedByteSliceToString tdt.getISO6346CD scheme.GetISO6346CD
  harness: tdt TestVerifSix; scheme TestVerifCD

prop P03
  funcs: filtering.(*List).Search filtering.NewList filtering.Subscriptions.ToByteSubscriptions filtering.ByteSubscriptions.Keys filtering.NewFilter filtering.(*FilterObject).Match
  lemmas: match_exact
  harness: filtering TestVerifP03

prop P10
  funcs: filtering.(*List).AddSubscription filtering.(*List).DeleteSubscription filtering.ListFilters.IndexOf filtering.Subscriptions.ToByteSubscriptions filtering.ByteSubscriptions.Keys filtering.NewFilter
  lemmas: lent_unique eidx_at
  harness: filtering TestVerifP10

prop P12
  funcs: filtering.(*PatriciaTrieNode).MarshalBinary filtering.(*PatriciaTrieNode).UnmarshalBinary filtering.(*PatriciaTrie).MarshalBinary filtering.(*PatriciaTrie).UnmarshalBinary filtering.(*SplayTreeNode).MarshalBinary filtering.(*SplayTreeNode).UnmarshalBinary filtering.(*SplayTree).MarshalBinary filtering.(*SplayTree).UnmarshalBinary filtering.(*List).MarshalBinary filtering.(*List).UnmarshalBinary filtering.(*LegacyEngine).MarshalBinary filtering.(*LegacyEngine).UnmarshalBinary filtering.Subscriptions.MarshalBinary filtering.Subscriptions.UnmarshalBinary filtering.(*PartialSubscription).MarshalBinary filtering.(*PartialSubscription).UnmarshalBinary filtering.Subscriptions.Keys
  lemmas: lenc_len lenc_at denc_len denc_at tenc_at
  harness: filtering TestVerifP12

prop P11
  funcs: filtering.(*LegacyEngine).AddSubscription filtering.(*LegacyEngine).DeleteSubscription filtering.(*LegacyEngine).Search filtering.stringIndexInSlice filtering.Subscriptions.Keys
  lemmas: cnt_none cnt_nonneg cnt_pos cnt_ext cnt_app cnt_shift cnt_cut tcnt_store tcnt_del legsub_intro
  harness: filtering TestVerifP11

prop P09
  funcs: filtering.(*SplayTreeNode).split filtering.(*SplayTreeNode).add filtering.(*SplayTreeNode).delete filtering.(*SplayTree).AddSubscription filtering.(*SplayTree).DeleteSubscription filtering.Subscriptions.ToByteSubscriptions filtering.ByteSubscriptions.Keys filtering.NewFilter
  harness: filtering TestVerifP09
  bounded: filtering TestVerifP09Build
  bound: construction (linkSubset, build and NewSplayTree write through pointers held in maps, out of the verifier's reach): random tables of up to 8 bit strings

prop P08
  funcs: filtering.(*SplayTreeNode).splaySearch filtering.(*SplayTree).Search filtering.(*FilterObject).Match
  lemmas: shits_len slens_inc slens_high shits_sound shits_complete match_exact
  harness: filtering TestVerifP08

prop P02
  funcs: filtering.(*List).Search filtering.(*PatriciaTrie).Search filtering.(*PatriciaTrieNode).search filtering.(*SplayTree).Search filtering.(*SplayTreeNode).splaySearch filtering.(*LegacyEngine).Search filtering.getNextBit filtering.(*FilterObject).Match filtering.NewPatriciaTrie filtering.NewList tdt.(*Core).Translate tdt.(*Core).buildEPC tdt.(*Core).buildUII tdt.parse6BitEncodedByteSliceToString
  harness: filtering TestVerifP02
  bounded: filtering TestVerifP02Splay
  bound: that NewSplayTree builds well-formed trees (what the search's contract requires): random tables of up to 8 bit strings, searched with random tags

prop P16
  funcs: tdt.MakePrefixFilterString tdt.NewPrefixFilterGIAI96 tdt.NewPrefixFilterGRAI96 tdt.NewPrefixFilterSGTIN96 tdt.NewPrefixFilterSSCC96 tdt.NewPrefixFilterISO17363 tdt.NewPrefixFilterISO17365 tdt.checkFields tdt.check6BitFields tdt.getFilter tdt.getCompanyPrefix tdt.getItemReference tdt.getAssetType tdt.getExtension tdt.getIndivisualAssetReference tdt.getSerial tdt.getISO6346CD binutil.ParseDecimalStringToBinRuneSlice binutil.GenerateNLengthZeroPaddingRuneSlice binutil.ParseRuneTo6BinRuneSlice binutil.ParseRuneSliceTo6BinRuneSlice
  lemmas: pow2_63 binstr_runes_bin code6_range code6_nat six6_bin sx_len field_len epckey_shorter isokey_shorter csn_len pat_shorter isotable_none isotable_value
  harness: tdt TestVerifPattern

prop P17
  funcs: filtering.Subscriptions.ToByteSubscriptions tdt.MakePrefixFilterString tdt.NewPrefixFilterGIAI96 tdt.NewPrefixFilterGRAI96 tdt.NewPrefixFilterSGTIN96 tdt.NewPrefixFilterSSCC96 tdt.NewPrefixFilterISO17363 tdt.NewPrefixFilterISO17365 tdt.checkFields tdt.check6BitFields tdt.getFilter tdt.getCompanyPrefix tdt.getItemReference tdt.getAssetType tdt.getExtension tdt.getIndivisualAssetReference tdt.getSerial tdt.getISO6346CD binutil.ParseDecimalStringToBinRuneSlice binutil.GenerateNLengthZeroPaddingRuneSlice binutil.ParseRuneTo6BinRuneSlice binutil.ParseRuneSliceTo6BinRuneSlice
  lemmas: pow2_63 binstr_runes_bin code6_range code6_nat six6_bin isotable_none isotable_value src_intro
  harness: filtering TestVerifP17; tdt TestVerifPattern

prop P15
  funcs: scheme.MakeSGTIN96 scheme.MakeGRAI96 scheme.MakeSSCC96 scheme.MakeGIAI96 scheme.MakeEPC scheme.MakeISO scheme.MakeISO17363 scheme.MakeISO17365 scheme.MakeISOPC scheme.Pad6BitEncodingRuneSlice scheme.GetISO6346CD scheme.checkFields scheme.GetFilter scheme.GetCompanyPrefix scheme.GetItemReference scheme.GetAssetType scheme.GetExtension scheme.GetIndivisualAssetReference scheme.GetSerial binutil.ParseBinRuneSliceToUint8Slice binutil.ParseDecimalStringToBinRuneSlice binutil.GenerateNLengthZeroPaddingRuneSlice binutil.ParseRuneTo6BinRuneSlice binutil.ParseRuneSliceTo6BinRuneSlice
  lemmas: pow2_63 binstr_runes_bin code6_range code6_nat six6_bin isotable_none isotable_value upper_six cpb_range idshift0 idshift1 idshift3 idshift4 idhead0 idhead1 idhead3 idhead4
  harness: scheme TestVerifP15

prop P13
  funcs: scheme.MakeSGTIN96 scheme.MakeGRAI96 scheme.MakeSSCC96 scheme.MakeGIAI96 scheme.checkFields scheme.GetFilter scheme.GetCompanyPrefix scheme.GetItemReference scheme.GetAssetType scheme.GetExtension scheme.GetIndivisualAssetReference scheme.GetSerial binutil.ParseBinRuneSliceToUint8Slice binutil.ParseDecimalStringToBinRuneSlice binutil.GenerateNLengthZeroPaddingRuneSlice tdt.(*Core).Translate tdt.(*Core).buildEPC
  lemmas: pow2_63 binstr_runes_bin cpb_range idshift0 idshift1 idshift3 idshift4 idhead0 idhead1 idhead3 idhead4 ub_58_38 decfixed ub_14_40 ub_54_4 rt_sgtin0 ub_14_37 ub_51_7 rt_sgtin1 ub_14_34 ub_48_10 rt_sgtin2 ub_14_30 ub_44_14 rt_sgtin3 ub_14_27 ub_41_17 rt_sgtin4 ub_14_24 ub_38_20 rt_sgtin5 ub_14_20 ub_34_24 rt_sgtin6 rt_sgtin rt_grai0 rt_grai1 rt_grai2 rt_grai3 rt_grai4 rt_grai5 rt_grai6 rt_grai ub_54_18 rt_sscc0 ub_51_21 rt_sscc1 ub_48_24 rt_sscc2 ub_44_28 rt_sscc3 ub_41_31 rt_sscc4 ub_38_34 rt_sscc5 ub_34_38 rt_sscc6 rt_sscc ub_54_42 rt_giai0 ub_51_45 rt_giai1 ub_48_48 rt_giai2 ub_44_52 rt_giai3 ub_41_55 rt_giai4 ub_38_58 rt_giai5 ub_34_62 rt_giai6 rt_giai
  harness: tdt TestVerifP13
