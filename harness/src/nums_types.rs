masks! {
    () u8 u8 false: u1 1 u2 2 u3 3 u4 4 u5 5 u6 6 u7 7;
    () u16 u16 false: u9 9 u10 10 u11 11 u12 12 u13 13 u14 14 u15 15;
    () u32 u32 false: u17 17 u18 18 u19 19 u20 20 u21 21 u22 22 u23 23 u24 24 u25 25 u26 26 u27 27 u28 28 u29 29 u30 30 u31 31;
    () u64 u64 false: u33 33 u34 34 u35 35 u36 36 u37 37 u38 38 u39 39 u40 40 u41 41 u42 42 u43 43 u44 44 u45 45 u46 46 u47 47 u48 48 u49 49 u50 50 u51 51 u52 52 u53 53 u54 54 u55 55 u56 56 u57 57 u58 58 u59 59 u60 60 u61 61 u62 62 u63 63;
    () u128 u128 false: u65 65 u66 66 u67 67 u68 68 u69 69 u70 70 u71 71 u72 72 u73 73 u74 74 u75 75 u76 76 u77 77 u78 78 u79 79 u80 80 u81 81 u82 82 u83 83 u84 84 u85 85 u86 86 u87 87 u88 88 u89 89 u90 90 u91 91 u92 92 u93 93 u94 94 u95 95 u96 96 u97 97 u98 98 u99 99 u100 100 u101 101 u102 102 u103 103 u104 104 u105 105 u106 106 u107 107 u108 108 u109 109 u110 110 u111 111 u112 112 u113 113 u114 114 u115 115 u116 116 u117 117 u118 118 u119 119 u120 120 u121 121 u122 122 u123 123 u124 124 u125 125 u126 126 u127 127;
    () i8 u8 true: i1 1 i2 2 i3 3 i4 4 i5 5 i6 6 i7 7;
    () i16 u16 true: i9 9 i10 10 i11 11 i12 12 i13 13 i14 14 i15 15;
    () i32 u32 true: i17 17 i18 18 i19 19 i20 20 i21 21 i22 22 i23 23 i24 24 i25 25 i26 26 i27 27 i28 28 i29 29 i30 30 i31 31;
    () i64 u64 true: i33 33 i34 34 i35 35 i36 36 i37 37 i38 38 i39 39 i40 40 i41 41 i42 42 i43 43 i44 44 i45 45 i46 46 i47 47 i48 48 i49 49 i50 50 i51 51 i52 52 i53 53 i54 54 i55 55 i56 56 i57 57 i58 58 i59 59 i60 60 i61 61 i62 62 i63 63;
    () i128 u128 true: i65 65 i66 66 i67 67 i68 68 i69 69 i70 70 i71 71 i72 72 i73 73 i74 74 i75 75 i76 76 i77 77 i78 78 i79 79 i80 80 i81 81 i82 82 i83 83 i84 84 i85 85 i86 86 i87 87 i88 88 i89 89 i90 90 i91 91 i92 92 i93 93 i94 94 i95 95 i96 96 i97 97 i98 98 i99 99 i100 100 i101 101 i102 102 i103 103 i104 104 i105 105 i106 106 i107 107 i108 108 i109 109 i110 110 i111 111 i112 112 i113 113 i114 114 i115 115 i116 116 i117 117 i118 118 i119 119 i120 120 i121 121 i122 122 i123 123 i124 124 i125 125 i126 126 i127 127;
}
nots! {
    "max" NonMaxU8, u8, u8, false, u8::MAX;
    "x" NonXU8<0>, u8, u8, false, 0;
    "x" NonXU8<72>, u8, u8, false, 72;
    "x" NonXU8<{ u8::MAX }>, u8, u8, false, { u8::MAX };
    "x" NonXI8<0>, i8, u8, true, 0;
    "x" NonXI8<72>, i8, u8, true, 72;
    "x" NonXI8<{ -1 }>, i8, u8, true, -1;
    "x" NonXI8<{ i8::MAX }>, i8, u8, true, { i8::MAX };
    "x" NonXI8<{ i8::MIN }>, i8, u8, true, { i8::MIN };
    "max" NonMaxU16, u16, u16, false, u16::MAX;
    "x" NonXU16<0>, u16, u16, false, 0;
    "x" NonXU16<72>, u16, u16, false, 72;
    "x" NonXU16<{ u16::MAX }>, u16, u16, false, { u16::MAX };
    "x" NonXI16<0>, i16, u16, true, 0;
    "x" NonXI16<72>, i16, u16, true, 72;
    "x" NonXI16<{ -1 }>, i16, u16, true, -1;
    "x" NonXI16<{ i16::MAX }>, i16, u16, true, { i16::MAX };
    "x" NonXI16<{ i16::MIN }>, i16, u16, true, { i16::MIN };
    "max" NonMaxU32, u32, u32, false, u32::MAX;
    "x" NonXU32<0>, u32, u32, false, 0;
    "x" NonXU32<72>, u32, u32, false, 72;
    "x" NonXU32<{ u32::MAX }>, u32, u32, false, { u32::MAX };
    "x" NonXI32<0>, i32, u32, true, 0;
    "x" NonXI32<72>, i32, u32, true, 72;
    "x" NonXI32<{ -1 }>, i32, u32, true, -1;
    "x" NonXI32<{ i32::MAX }>, i32, u32, true, { i32::MAX };
    "x" NonXI32<{ i32::MIN }>, i32, u32, true, { i32::MIN };
    "max" NonMaxU64, u64, u64, false, u64::MAX;
    "x" NonXU64<0>, u64, u64, false, 0;
    "x" NonXU64<72>, u64, u64, false, 72;
    "x" NonXU64<{ u64::MAX }>, u64, u64, false, { u64::MAX };
    "x" NonXI64<0>, i64, u64, true, 0;
    "x" NonXI64<72>, i64, u64, true, 72;
    "x" NonXI64<{ -1 }>, i64, u64, true, -1;
    "x" NonXI64<{ i64::MAX }>, i64, u64, true, { i64::MAX };
    "x" NonXI64<{ i64::MIN }>, i64, u64, true, { i64::MIN };
    "max" NonMaxU128, u128, u128, false, u128::MAX;
    "x" NonXU128<0>, u128, u128, false, 0;
    "x" NonXU128<72>, u128, u128, false, 72;
    "x" NonXU128<{ u128::MAX }>, u128, u128, false, { u128::MAX };
    "x" NonXI128<0>, i128, u128, true, 0;
    "x" NonXI128<72>, i128, u128, true, 72;
    "x" NonXI128<{ -1 }>, i128, u128, true, -1;
    "x" NonXI128<{ i128::MAX }>, i128, u128, true, { i128::MAX };
    "x" NonXI128<{ i128::MIN }>, i128, u128, true, { i128::MIN };
    "max" NonMaxUsize, usize, usize, false, usize::MAX;
    "x" NonXUsize<0>, usize, usize, false, 0;
    "x" NonXUsize<72>, usize, usize, false, 72;
    "x" NonXUsize<{ usize::MAX }>, usize, usize, false, { usize::MAX };
    "x" NonXIsize<0>, isize, usize, true, 0;
    "x" NonXIsize<72>, isize, usize, true, 72;
    "x" NonXIsize<{ -1 }>, isize, usize, true, -1;
    "x" NonXIsize<{ isize::MAX }>, isize, usize, true, { isize::MAX };
    "x" NonXIsize<{ isize::MIN }>, isize, usize, true, { isize::MIN };
}
