/* trees of 8 to 10 nodes for units/rbt2.c, one position for every distinct local change (tools/rbtgen.py 10 and a trace of the changed nodes) */
#ifdef RBT_SHAPES
{8,1,{-1,0,-1,-1,2,-1,5,-1,-1,-1},{-1,4,3,-1,6,-1,7,-1,-1,-1},184},
{8,1,{-1,0,-1,2,3,-1,5,-1,-1,-1},{-1,4,-1,-1,6,-1,7,-1,-1,-1},180},
{8,1,{-1,0,-1,2,-1,3,-1,-1,-1,-1},{-1,5,-1,4,-1,6,7,-1,-1,-1},180},
{8,1,{-1,0,-1,2,-1,3,-1,6,-1,-1},{-1,5,-1,4,-1,7,-1,-1,-1,-1},116},
{8,2,{-1,-1,0,-1,3,-1,5,-1,-1,-1},{1,-1,4,-1,6,-1,7,-1,-1,-1},178},
{8,2,{-1,-1,0,-1,3,-1,4,-1,-1,-1},{1,-1,6,-1,5,-1,7,-1,-1,-1},106},
{8,2,{-1,0,1,-1,3,-1,5,-1,-1,-1},{-1,-1,4,-1,6,-1,7,-1,-1,-1},177},
{8,2,{-1,0,1,-1,3,-1,4,-1,-1,-1},{-1,-1,6,-1,5,-1,7,-1,-1,-1},105},
{8,3,{-1,0,-1,1,-1,4,-1,-1,-1,-1},{-1,2,-1,5,-1,6,7,-1,-1,-1},128},
{8,3,{-1,0,-1,1,-1,4,-1,6,-1,-1},{-1,2,-1,5,-1,7,-1,-1,-1,-1},64},
{8,3,{-1,0,-1,1,-1,-1,4,-1,-1,-1},{-1,2,-1,6,5,-1,7,-1,-1,-1},32},
{8,3,{-1,0,-1,1,-1,4,5,-1,-1,-1},{-1,2,-1,6,-1,-1,7,-1,-1,-1},16},
{8,3,{-1,0,-1,1,-1,4,-1,-1,-1,-1},{-1,2,-1,5,-1,6,7,-1,-1,-1},162},
{8,3,{-1,0,-1,1,-1,4,-1,6,-1,-1},{-1,2,-1,5,-1,7,-1,-1,-1,-1},98},
{8,3,{-1,0,-1,1,-1,-1,4,-1,-1,-1},{-1,2,-1,6,5,-1,7,-1,-1,-1},98},
{8,3,{-1,0,-1,1,-1,4,5,-1,-1,-1},{-1,2,-1,6,-1,-1,7,-1,-1,-1},82},
{8,3,{-1,0,-1,1,-1,4,-1,-1,-1,-1},{-1,2,-1,5,-1,6,7,-1,-1,-1},165},
{8,3,{-1,0,-1,1,-1,4,-1,6,-1,-1},{-1,2,-1,5,-1,7,-1,-1,-1,-1},101},
{8,3,{-1,0,-1,1,-1,-1,4,-1,-1,-1},{-1,2,-1,6,5,-1,7,-1,-1,-1},101},
{8,3,{-1,0,-1,1,-1,4,5,-1,-1,-1},{-1,2,-1,6,-1,-1,7,-1,-1,-1},85},
{8,4,{-1,0,-1,-1,1,-1,5,-1,-1,-1},{-1,2,3,-1,6,-1,7,-1,-1,-1},8},
{8,4,{-1,0,-1,-1,1,-1,5,-1,-1,-1},{-1,2,3,-1,6,-1,7,-1,-1,-1},74},
{8,4,{-1,0,-1,2,1,-1,5,-1,-1,-1},{-1,3,-1,-1,6,-1,7,-1,-1,-1},4},
{8,4,{-1,0,-1,2,1,-1,5,-1,-1,-1},{-1,3,-1,-1,6,-1,7,-1,-1,-1},70},
{8,4,{-1,-1,0,-1,2,-1,5,-1,-1,-1},{1,-1,3,-1,6,-1,7,-1,-1,-1},2},
{8,4,{-1,-1,0,-1,2,-1,5,-1,-1,-1},{1,-1,3,-1,6,-1,7,-1,-1,-1},70},
{8,4,{-1,0,1,-1,2,-1,5,-1,-1,-1},{-1,-1,3,-1,6,-1,7,-1,-1,-1},1},
{8,4,{-1,0,1,-1,2,-1,5,-1,-1,-1},{-1,-1,3,-1,6,-1,7,-1,-1,-1},69},
{8,6,{-1,-1,0,-1,3,-1,2,-1,-1,-1},{1,-1,4,-1,5,-1,7,-1,-1,-1},46},
{8,6,{-1,0,1,-1,3,-1,2,-1,-1,-1},{-1,-1,4,-1,5,-1,7,-1,-1,-1},45},
{8,6,{-1,0,-1,1,-1,-1,3,-1,-1,-1},{-1,2,-1,4,5,-1,7,-1,-1,-1},45},
{8,6,{-1,0,-1,1,-1,4,3,-1,-1,-1},{-1,2,-1,5,-1,-1,7,-1,-1,-1},29},
{9,1,{-1,0,-1,2,-1,3,-1,6,-1,-1},{-1,5,-1,4,-1,7,-1,8,-1,-1},372},
{9,3,{-1,0,-1,1,-1,4,-1,6,-1,-1},{-1,2,-1,5,-1,7,-1,8,-1,-1},128},
{9,3,{-1,0,-1,1,-1,4,-1,6,-1,-1},{-1,2,-1,5,-1,7,-1,8,-1,-1},320},
{9,3,{-1,0,-1,1,-1,-1,4,-1,-1,-1},{-1,2,-1,6,5,-1,7,8,-1,-1},288},
{9,3,{-1,0,-1,1,-1,-1,4,-1,7,-1},{-1,2,-1,6,5,-1,8,-1,-1,-1},160},
{9,3,{-1,0,-1,1,-1,4,5,-1,-1,-1},{-1,2,-1,6,-1,-1,7,8,-1,-1},272},
{9,3,{-1,0,-1,1,-1,4,5,-1,7,-1},{-1,2,-1,6,-1,-1,8,-1,-1,-1},144},
{9,3,{-1,0,-1,1,-1,4,-1,5,-1,-1},{-1,2,-1,7,-1,6,-1,8,-1,-1},32},
{9,3,{-1,0,-1,1,-1,4,-1,5,-1,-1},{-1,2,-1,7,-1,6,-1,8,-1,-1},80},
{9,3,{-1,0,-1,1,-1,4,-1,6,-1,-1},{-1,2,-1,5,-1,7,-1,8,-1,-1},354},
{9,3,{-1,0,-1,1,-1,-1,4,-1,-1,-1},{-1,2,-1,6,5,-1,7,8,-1,-1},354},
{9,3,{-1,0,-1,1,-1,-1,4,-1,7,-1},{-1,2,-1,6,5,-1,8,-1,-1,-1},226},
{9,3,{-1,0,-1,1,-1,4,5,-1,-1,-1},{-1,2,-1,6,-1,-1,7,8,-1,-1},338},
{9,3,{-1,0,-1,1,-1,4,5,-1,7,-1},{-1,2,-1,6,-1,-1,8,-1,-1,-1},210},
{9,3,{-1,0,-1,1,-1,4,-1,5,-1,-1},{-1,2,-1,7,-1,6,-1,8,-1,-1},210},
{9,3,{-1,0,-1,1,-1,4,-1,6,-1,-1},{-1,2,-1,5,-1,7,-1,8,-1,-1},357},
{9,3,{-1,0,-1,1,-1,4,-1,5,-1,-1},{-1,2,-1,7,-1,6,-1,8,-1,-1},213},
{9,5,{-1,0,-1,2,-1,1,-1,6,-1,-1},{-1,3,-1,4,-1,7,-1,8,-1,-1},8},
{9,5,{-1,0,-1,2,-1,1,-1,6,-1,-1},{-1,3,-1,4,-1,7,-1,8,-1,-1},20},
{9,5,{-1,0,-1,2,-1,1,-1,6,-1,-1},{-1,3,-1,4,-1,7,-1,8,-1,-1},150},
{9,5,{-1,-1,0,-1,-1,2,-1,6,-1,-1},{1,-1,3,4,-1,7,-1,8,-1,-1},18},
{9,5,{-1,-1,0,-1,-1,2,-1,6,-1,-1},{1,-1,3,4,-1,7,-1,8,-1,-1},150},
{9,5,{-1,-1,0,-1,3,2,-1,6,-1,-1},{1,-1,4,-1,-1,7,-1,8,-1,-1},10},
{9,5,{-1,-1,0,-1,3,2,-1,6,-1,-1},{1,-1,4,-1,-1,7,-1,8,-1,-1},142},
{9,5,{-1,0,1,-1,-1,2,-1,6,-1,-1},{-1,-1,3,4,-1,7,-1,8,-1,-1},17},
{9,5,{-1,0,1,-1,-1,2,-1,6,-1,-1},{-1,-1,3,4,-1,7,-1,8,-1,-1},149},
{9,5,{-1,0,1,-1,3,2,-1,6,-1,-1},{-1,-1,4,-1,-1,7,-1,8,-1,-1},9},
{9,5,{-1,0,1,-1,3,2,-1,6,-1,-1},{-1,-1,4,-1,-1,7,-1,8,-1,-1},141},
{9,5,{-1,0,-1,1,-1,3,-1,6,-1,-1},{-1,2,-1,4,-1,7,-1,8,-1,-1},2},
{9,5,{-1,0,-1,1,-1,3,-1,6,-1,-1},{-1,2,-1,4,-1,7,-1,8,-1,-1},5},
{9,5,{-1,0,-1,1,-1,3,-1,6,-1,-1},{-1,2,-1,4,-1,7,-1,8,-1,-1},141},
{9,7,{-1,0,-1,1,-1,4,-1,3,-1,-1},{-1,2,-1,5,-1,6,-1,8,-1,-1},93},
{10,3,{-1,0,-1,1,-1,4,-1,6,-1,-1},{-1,2,-1,5,-1,7,-1,8,9,-1},640},
{10,3,{-1,0,-1,1,-1,4,-1,6,-1,8},{-1,2,-1,5,-1,7,-1,9,-1,-1},384},
{10,3,{-1,0,-1,1,-1,4,-1,-1,6,-1},{-1,2,-1,5,-1,8,7,-1,9,-1},384},
{10,3,{-1,0,-1,1,-1,4,-1,6,7,-1},{-1,2,-1,5,-1,8,-1,-1,9,-1},320},
{10,3,{-1,0,-1,1,-1,-1,4,-1,7,-1},{-1,2,-1,6,5,-1,8,-1,9,-1},288},
{10,3,{-1,0,-1,1,-1,-1,4,-1,7,-1},{-1,2,-1,6,5,-1,8,-1,9,-1},672},
{10,3,{-1,0,-1,1,-1,4,5,-1,7,-1},{-1,2,-1,6,-1,-1,8,-1,9,-1},272},
{10,3,{-1,0,-1,1,-1,4,5,-1,7,-1},{-1,2,-1,6,-1,-1,8,-1,9,-1},656},
{10,3,{-1,0,-1,1,-1,4,-1,5,-1,-1},{-1,2,-1,7,-1,6,-1,8,9,-1},544},
{10,3,{-1,0,-1,1,-1,4,-1,5,-1,8},{-1,2,-1,7,-1,6,-1,9,-1,-1},288},
{10,3,{-1,0,-1,1,-1,4,-1,5,-1,-1},{-1,2,-1,7,-1,6,-1,8,9,-1},592},
{10,3,{-1,0,-1,1,-1,4,-1,5,-1,8},{-1,2,-1,7,-1,6,-1,9,-1,-1},336},
{10,3,{-1,0,-1,1,-1,4,-1,-1,5,-1},{-1,2,-1,8,-1,6,7,-1,9,-1},160},
{10,3,{-1,0,-1,1,-1,4,-1,6,5,-1},{-1,2,-1,8,-1,7,-1,-1,9,-1},96},
{10,3,{-1,0,-1,1,-1,-1,4,-1,6,-1},{-1,2,-1,8,5,-1,7,-1,9,-1},96},
{10,3,{-1,0,-1,1,-1,4,5,-1,6,-1},{-1,2,-1,8,-1,-1,7,-1,9,-1},80},
{10,3,{-1,0,-1,1,-1,-1,4,-1,7,-1},{-1,2,-1,6,5,-1,8,-1,9,-1},738},
{10,3,{-1,0,-1,1,-1,4,5,-1,7,-1},{-1,2,-1,6,-1,-1,8,-1,9,-1},722},
{10,3,{-1,0,-1,1,-1,4,-1,5,-1,-1},{-1,2,-1,7,-1,6,-1,8,9,-1},722},
{10,3,{-1,0,-1,1,-1,4,-1,5,-1,8},{-1,2,-1,7,-1,6,-1,9,-1,-1},466},
{10,5,{-1,0,-1,2,-1,1,-1,6,-1,-1},{-1,3,-1,4,-1,7,-1,8,9,-1},520},
{10,5,{-1,0,-1,2,-1,1,-1,6,-1,8},{-1,3,-1,4,-1,7,-1,9,-1,-1},264},
{10,5,{-1,0,-1,2,-1,1,-1,-1,6,-1},{-1,3,-1,4,-1,8,7,-1,9,-1},136},
{10,5,{-1,0,-1,2,-1,1,-1,6,7,-1},{-1,3,-1,4,-1,8,-1,-1,9,-1},72},
{10,5,{-1,0,-1,1,-1,3,-1,6,-1,-1},{-1,2,-1,4,-1,7,-1,8,9,-1},514},
{10,5,{-1,0,-1,1,-1,3,-1,6,-1,8},{-1,2,-1,4,-1,7,-1,9,-1,-1},258},
{10,5,{-1,0,-1,1,-1,3,-1,-1,6,-1},{-1,2,-1,4,-1,8,7,-1,9,-1},130},
{10,5,{-1,0,-1,1,-1,3,-1,6,7,-1},{-1,2,-1,4,-1,8,-1,-1,9,-1},66},
{10,6,{-1,0,-1,2,-1,-1,1,-1,7,-1},{-1,3,-1,4,5,-1,8,-1,9,-1},40},
{10,6,{-1,0,-1,2,-1,4,1,-1,7,-1},{-1,3,-1,5,-1,-1,8,-1,9,-1},24},
{10,6,{-1,0,-1,-1,2,-1,1,-1,7,-1},{-1,4,3,-1,5,-1,8,-1,9,-1},24},
{10,6,{-1,0,-1,2,3,-1,1,-1,7,-1},{-1,4,-1,-1,5,-1,8,-1,9,-1},20},
{10,6,{-1,-1,0,-1,3,-1,2,-1,7,-1},{1,-1,4,-1,5,-1,8,-1,9,-1},18},
{10,6,{-1,-1,0,-1,3,-1,2,-1,7,-1},{1,-1,4,-1,5,-1,8,-1,9,-1},42},
{10,6,{-1,-1,0,-1,3,-1,2,-1,7,-1},{1,-1,4,-1,5,-1,8,-1,9,-1},302},
{10,6,{-1,0,1,-1,3,-1,2,-1,7,-1},{-1,-1,4,-1,5,-1,8,-1,9,-1},17},
{10,6,{-1,0,1,-1,3,-1,2,-1,7,-1},{-1,-1,4,-1,5,-1,8,-1,9,-1},41},
{10,6,{-1,0,1,-1,3,-1,2,-1,7,-1},{-1,-1,4,-1,5,-1,8,-1,9,-1},301},
{10,6,{-1,0,-1,1,-1,-1,3,-1,7,-1},{-1,2,-1,4,5,-1,8,-1,9,-1},34},
{10,6,{-1,0,-1,1,-1,4,3,-1,7,-1},{-1,2,-1,5,-1,-1,8,-1,9,-1},18},
{10,6,{-1,0,-1,1,-1,-1,3,-1,7,-1},{-1,2,-1,4,5,-1,8,-1,9,-1},37},
{10,6,{-1,0,-1,1,-1,-1,3,-1,7,-1},{-1,2,-1,4,5,-1,8,-1,9,-1},301},
{10,6,{-1,0,-1,1,-1,4,3,-1,7,-1},{-1,2,-1,5,-1,-1,8,-1,9,-1},21},
{10,6,{-1,0,-1,1,-1,4,3,-1,7,-1},{-1,2,-1,5,-1,-1,8,-1,9,-1},285},
{10,6,{-1,0,-1,-1,1,-1,4,-1,7,-1},{-1,2,3,-1,5,-1,8,-1,9,-1},10},
{10,6,{-1,0,-1,2,1,-1,4,-1,7,-1},{-1,3,-1,-1,5,-1,8,-1,9,-1},6},
{10,6,{-1,-1,0,-1,2,-1,4,-1,7,-1},{1,-1,3,-1,5,-1,8,-1,9,-1},6},
{10,6,{-1,0,1,-1,2,-1,4,-1,7,-1},{-1,-1,3,-1,5,-1,8,-1,9,-1},5},
#else
{0,5},
{0,6},
{0,7},
{0,8},
{1,5},
{1,6},
{1,7},
{1,8},
{8,7},
{8,8},
{9,6},
{9,7},
{10,5},
{10,6},
{11,4},
{11,5},
{20,3},
{20,4},
{22,2},
{22,3},
{24,1},
{24,2},
{26,0},
{26,1},
{30,0},
{30,1},
{30,2},
{30,3},
{31,0},
{31,1},
{31,2},
{31,3},
{32,6},
{32,7},
{32,8},
{32,9},
{41,6},
{41,7},
{41,8},
{41,9},
{46,4},
{46,5},
{46,6},
{46,7},
{51,2},
{51,3},
{51,4},
{51,5},
{62,0},
{62,1},
{62,2},
{62,3},
{63,0},
{63,1},
{63,2},
{63,3},
{68,5},
{68,6},
{70,4},
{70,5},
{72,9},
{72,10},
{73,8},
{73,9},
{96,1},
{96,2},
{99,0},
{99,1},
{102,5},
{102,6},
{103,4},
{103,5},
{0,4},
{1,4},
{2,5},
{3,5},
{4,2},
{5,2},
{6,2},
{7,2},
{8,3},
{8,4},
{8,5},
{8,6},
{9,3},
{9,4},
{9,5},
{9,7},
{10,3},
{10,4},
{10,6},
{10,7},
{11,3},
{11,5},
{11,6},
{11,7},
{12,3},
{12,4},
{12,5},
{13,3},
{13,4},
{13,5},
{14,3},
{14,6},
{14,7},
{15,3},
{15,6},
{15,7},
{16,3},
{17,3},
{18,3},
{19,3},
{20,0},
{20,1},
{20,2},
{21,0},
{21,1},
{22,0},
{22,1},
{22,3},
{23,0},
{23,1},
{24,0},
{24,2},
{24,3},
{25,2},
{25,3},
{26,1},
{26,2},
{26,3},
{27,2},
{27,3},
{28,2},
{29,2},
{30,3},
{31,3},
{32,5},
{33,0},
{33,1},
{33,2},
{33,3},
{33,4},
{33,5},
{33,7},
{34,3},
{34,4},
{34,5},
{34,7},
{35,6},
{36,6},
{37,6},
{38,6},
{39,0},
{39,1},
{39,2},
{39,3},
{39,5},
{39,7},
{39,8},
{40,3},
{40,5},
{40,7},
{40,8},
{41,3},
{41,4},
{41,5},
{42,6},
{43,6},
{44,6},
{45,6},
{46,3},
{46,7},
{46,8},
{47,3},
{48,3},
{49,0},
{49,1},
{49,3},
{49,5},
{49,6},
{49,7},
{49,8},
{50,0},
{50,1},
{50,3},
{51,0},
{51,1},
{52,2},
{53,2},
{54,2},
{55,2},
{56,2},
{57,2},
{58,2},
{59,2},
{60,1},
{60,3},
{60,4},
{60,5},
{60,6},
{60,7},
{60,8},
{61,1},
{61,3},
{61,4},
{62,3},
{62,4},
{63,3},
{64,5},
{64,6},
{64,7},
{65,5},
{65,6},
{65,7},
{66,3},
{66,4},
{66,5},
{66,8},
{66,9},
{67,3},
{67,4},
{67,5},
{67,8},
{67,9},
{68,0},
{68,1},
{68,2},
{68,3},
{68,4},
{68,6},
{69,6},
{70,0},
{70,1},
{70,2},
{70,3},
{70,5},
{70,6},
{71,6},
{72,7},
{72,8},
{73,7},
{73,9},
{74,7},
{75,7},
{76,0},
{76,1},
{76,2},
{76,3},
{76,4},
{76,5},
{76,8},
{76,9},
{77,0},
{77,1},
{77,2},
{77,3},
{77,4},
{77,5},
{77,8},
{77,9},
{78,0},
{78,1},
{78,2},
{78,3},
{78,6},
{78,7},
{79,0},
{79,1},
{79,2},
{79,3},
{79,6},
{79,7},
{80,6},
{81,6},
{82,7},
{83,7},
{84,5},
{85,5},
{86,5},
{87,5},
{88,5},
{89,5},
{90,5},
{91,5},
{92,1},
{92,2},
{92,3},
{92,6},
{92,7},
{92,8},
{92,9},
{93,1},
{93,2},
{93,3},
{93,6},
{93,7},
{93,8},
{93,9},
{94,0},
{94,1},
{94,4},
{94,5},
{94,6},
{94,7},
{94,8},
{94,9},
{95,0},
{95,1},
{95,4},
{95,5},
{95,6},
{95,7},
{95,8},
{95,9},
{96,0},
{96,2},
{97,2},
{98,2},
{99,1},
{99,2},
{100,2},
{101,2},
{102,3},
{102,4},
{102,6},
{102,7},
{102,8},
{102,9},
{103,3},
{103,5},
{103,6},
{103,7},
{103,8},
{103,9},
{104,3},
{105,3},
{106,3},
{107,3},
{108,0},
{108,1},
{108,4},
{108,5},
{109,0},
{109,1},
{109,4},
{109,5},
{110,2},
{110,3},
{111,2},
{111,3},
#endif
