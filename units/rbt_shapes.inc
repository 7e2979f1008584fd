/* all red-black trees of at most 7 nodes: nodes, root, left, right, red mask (tools/rbtgen.py) */
{0,-1,{-1,-1,-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1,-1,-1},0},
{1,0,{-1,-1,-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1,-1,-1},0},
{2,0,{-1,-1,-1,-1,-1,-1,-1},{1,-1,-1,-1,-1,-1,-1},2},
{2,1,{-1,0,-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1,-1,-1},1},
{3,1,{-1,0,-1,-1,-1,-1,-1},{-1,2,-1,-1,-1,-1,-1},0},
{3,1,{-1,0,-1,-1,-1,-1,-1},{-1,2,-1,-1,-1,-1,-1},5},
{4,1,{-1,0,-1,-1,-1,-1,-1},{-1,2,3,-1,-1,-1,-1},8},
{4,1,{-1,0,-1,2,-1,-1,-1},{-1,3,-1,-1,-1,-1,-1},4},
{4,2,{-1,-1,0,-1,-1,-1,-1},{1,-1,3,-1,-1,-1,-1},2},
{4,2,{-1,0,1,-1,-1,-1,-1},{-1,-1,3,-1,-1,-1,-1},1},
{5,1,{-1,0,-1,2,-1,-1,-1},{-1,3,-1,4,-1,-1,-1},8},
{5,1,{-1,0,-1,2,-1,-1,-1},{-1,3,-1,4,-1,-1,-1},20},
{5,2,{-1,-1,0,-1,-1,-1,-1},{1,-1,3,4,-1,-1,-1},18},
{5,2,{-1,-1,0,-1,3,-1,-1},{1,-1,4,-1,-1,-1,-1},10},
{5,2,{-1,0,1,-1,-1,-1,-1},{-1,-1,3,4,-1,-1,-1},17},
{5,2,{-1,0,1,-1,3,-1,-1},{-1,-1,4,-1,-1,-1,-1},9},
{5,3,{-1,0,-1,1,-1,-1,-1},{-1,2,-1,4,-1,-1,-1},2},
{5,3,{-1,0,-1,1,-1,-1,-1},{-1,2,-1,4,-1,-1,-1},5},
{6,1,{-1,0,-1,2,-1,-1,-1},{-1,3,-1,4,5,-1,-1},40},
{6,1,{-1,0,-1,2,-1,4,-1},{-1,3,-1,5,-1,-1,-1},24},
{6,1,{-1,0,-1,-1,2,-1,-1},{-1,4,3,-1,5,-1,-1},24},
{6,1,{-1,0,-1,2,3,-1,-1},{-1,4,-1,-1,5,-1,-1},20},
{6,2,{-1,-1,0,-1,3,-1,-1},{1,-1,4,-1,5,-1,-1},18},
{6,2,{-1,-1,0,-1,3,-1,-1},{1,-1,4,-1,5,-1,-1},42},
{6,2,{-1,0,1,-1,3,-1,-1},{-1,-1,4,-1,5,-1,-1},17},
{6,2,{-1,0,1,-1,3,-1,-1},{-1,-1,4,-1,5,-1,-1},41},
{6,3,{-1,0,-1,1,-1,-1,-1},{-1,2,-1,4,5,-1,-1},34},
{6,3,{-1,0,-1,1,-1,4,-1},{-1,2,-1,5,-1,-1,-1},18},
{6,3,{-1,0,-1,1,-1,-1,-1},{-1,2,-1,4,5,-1,-1},37},
{6,3,{-1,0,-1,1,-1,4,-1},{-1,2,-1,5,-1,-1,-1},21},
{6,4,{-1,0,-1,-1,1,-1,-1},{-1,2,3,-1,5,-1,-1},10},
{6,4,{-1,0,-1,2,1,-1,-1},{-1,3,-1,-1,5,-1,-1},6},
{6,4,{-1,-1,0,-1,2,-1,-1},{1,-1,3,-1,5,-1,-1},6},
{6,4,{-1,0,1,-1,2,-1,-1},{-1,-1,3,-1,5,-1,-1},5},
{7,1,{-1,0,-1,2,-1,4,-1},{-1,3,-1,5,-1,6,-1},88},
{7,1,{-1,0,-1,-1,2,-1,-1},{-1,4,3,-1,5,6,-1},88},
{7,1,{-1,0,-1,-1,2,-1,5},{-1,4,3,-1,6,-1,-1},56},
{7,1,{-1,0,-1,2,3,-1,-1},{-1,4,-1,-1,5,6,-1},84},
{7,1,{-1,0,-1,2,3,-1,5},{-1,4,-1,-1,6,-1,-1},52},
{7,1,{-1,0,-1,2,-1,3,-1},{-1,5,-1,4,-1,6,-1},52},
{7,2,{-1,-1,0,-1,3,-1,-1},{1,-1,4,-1,5,6,-1},82},
{7,2,{-1,-1,0,-1,3,-1,5},{1,-1,4,-1,6,-1,-1},50},
{7,2,{-1,-1,0,-1,-1,3,-1},{1,-1,5,4,-1,6,-1},50},
{7,2,{-1,-1,0,-1,3,4,-1},{1,-1,5,-1,-1,6,-1},42},
{7,2,{-1,0,1,-1,3,-1,-1},{-1,-1,4,-1,5,6,-1},81},
{7,2,{-1,0,1,-1,3,-1,5},{-1,-1,4,-1,6,-1,-1},49},
{7,2,{-1,0,1,-1,-1,3,-1},{-1,-1,5,4,-1,6,-1},49},
{7,2,{-1,0,1,-1,3,4,-1},{-1,-1,5,-1,-1,6,-1},41},
{7,3,{-1,0,-1,1,-1,4,-1},{-1,2,-1,5,-1,6,-1},0},
{7,3,{-1,0,-1,1,-1,4,-1},{-1,2,-1,5,-1,6,-1},34},
{7,3,{-1,0,-1,1,-1,4,-1},{-1,2,-1,5,-1,6,-1},82},
{7,3,{-1,0,-1,1,-1,4,-1},{-1,2,-1,5,-1,6,-1},37},
{7,3,{-1,0,-1,1,-1,4,-1},{-1,2,-1,5,-1,6,-1},85},
{7,4,{-1,0,-1,-1,1,-1,-1},{-1,2,3,-1,5,6,-1},74},
{7,4,{-1,0,-1,-1,1,-1,5},{-1,2,3,-1,6,-1,-1},42},
{7,4,{-1,0,-1,2,1,-1,-1},{-1,3,-1,-1,5,6,-1},70},
{7,4,{-1,0,-1,2,1,-1,5},{-1,3,-1,-1,6,-1,-1},38},
{7,4,{-1,-1,0,-1,2,-1,-1},{1,-1,3,-1,5,6,-1},70},
{7,4,{-1,-1,0,-1,2,-1,5},{1,-1,3,-1,6,-1,-1},38},
{7,4,{-1,0,1,-1,2,-1,-1},{-1,-1,3,-1,5,6,-1},69},
{7,4,{-1,0,1,-1,2,-1,5},{-1,-1,3,-1,6,-1,-1},37},
{7,5,{-1,0,-1,2,-1,1,-1},{-1,3,-1,4,-1,6,-1},22},
{7,5,{-1,-1,0,-1,-1,2,-1},{1,-1,3,4,-1,6,-1},22},
{7,5,{-1,-1,0,-1,3,2,-1},{1,-1,4,-1,-1,6,-1},14},
{7,5,{-1,0,1,-1,-1,2,-1},{-1,-1,3,4,-1,6,-1},21},
{7,5,{-1,0,1,-1,3,2,-1},{-1,-1,4,-1,-1,6,-1},13},
{7,5,{-1,0,-1,1,-1,3,-1},{-1,2,-1,4,-1,6,-1},13},
