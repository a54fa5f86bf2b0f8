-------------------------------- MODULE Trig --------------------------------
(* cosine and sine of k/n of a turn in ten-thousandths, n up to 32 (generated by tools/gen_trig.py) *)
EXTENDS Integers, Sequences
CosTab == << <<10000>>,
   <<10000, -10000>>,
   <<10000, -5000, -5000>>,
   <<10000, 0, -10000, 0>>,
   <<10000, 3090, -8090, -8090, 3090>>,
   <<10000, 5000, -5000, -10000, -5000, 5000>>,
   <<10000, 6235, -2225, -9010, -9010, -2225, 6235>>,
   <<10000, 7071, 0, -7071, -10000, -7071, 0, 7071>>,
   <<10000, 7660, 1736, -5000, -9397, -9397, -5000, 1736, 7660>>,
   <<10000, 8090, 3090, -3090, -8090, -10000, -8090, -3090, 3090, 8090>>,
   <<10000, 8413, 4154, -1423, -6549, -9595, -9595, -6549, -1423, 4154, 8413>>,
   <<10000, 8660, 5000, 0, -5000, -8660, -10000, -8660, -5000, 0, 5000, 8660>>,
   <<10000, 8855, 5681, 1205, -3546, -7485, -9709, -9709, -7485, -3546, 1205, 5681, 8855>>,
   <<10000, 9010, 6235, 2225, -2225, -6235, -9010, -10000, -9010, -6235, -2225, 2225, 6235, 9010>>,
   <<10000, 9135, 6691, 3090, -1045, -5000, -8090, -9781, -9781, -8090, -5000, -1045, 3090, 6691, 9135>>,
   <<10000, 9239, 7071, 3827, 0, -3827, -7071, -9239, -10000, -9239, -7071, -3827, 0, 3827, 7071, 9239>>,
   <<10000, 9325, 7390, 4457, 923, -2737, -6026, -8502, -9830, -9830, -8502, -6026, -2737, 923, 4457, 7390, 9325>>,
   <<10000, 9397, 7660, 5000, 1736, -1736, -5000, -7660, -9397, -10000, -9397, -7660, -5000, -1736, 1736, 5000, 7660, 9397>>,
   <<10000, 9458, 7891, 5469, 2455, -826, -4017, -6773, -8795, -9864, -9864, -8795, -6773, -4017, -826, 2455, 5469, 7891, 9458>>,
   <<10000, 9511, 8090, 5878, 3090, 0, -3090, -5878, -8090, -9511, -10000, -9511, -8090, -5878, -3090, 0, 3090, 5878, 8090, 9511>>,
   <<10000, 9556, 8262, 6235, 3653, 747, -2225, -5000, -7331, -9010, -9888, -9888, -9010, -7331, -5000, -2225, 747, 3653, 6235, 8262, 9556>>,
   <<10000, 9595, 8413, 6549, 4154, 1423, -1423, -4154, -6549, -8413, -9595, -10000, -9595, -8413, -6549, -4154, -1423, 1423, 4154, 6549, 8413, 9595>>,
   <<10000, 9629, 8544, 6826, 4601, 2035, -682, -3349, -5767, -7757, -9172, -9907, -9907, -9172, -7757, -5767, -3349, -682, 2035, 4601, 6826, 8544, 9629>>,
   <<10000, 9659, 8660, 7071, 5000, 2588, 0, -2588, -5000, -7071, -8660, -9659, -10000, -9659, -8660, -7071, -5000, -2588, 0, 2588, 5000, 7071, 8660, 9659>>,
   <<10000, 9686, 8763, 7290, 5358, 3090, 628, -1874, -4258, -6374, -8090, -9298, -9921, -9921, -9298, -8090, -6374, -4258, -1874, 628, 3090, 5358, 7290, 8763, 9686>>,
   <<10000, 9709, 8855, 7485, 5681, 3546, 1205, -1205, -3546, -5681, -7485, -8855, -9709, -10000, -9709, -8855, -7485, -5681, -3546, -1205, 1205, 3546, 5681, 7485, 8855, 9709>>,
   <<10000, 9730, 8936, 7660, 5972, 3961, 1736, -581, -2868, -5000, -6862, -8355, -9397, -9932, -9932, -9397, -8355, -6862, -5000, -2868, -581, 1736, 3961, 5972, 7660, 8936, 9730>>,
   <<10000, 9749, 9010, 7818, 6235, 4339, 2225, 0, -2225, -4339, -6235, -7818, -9010, -9749, -10000, -9749, -9010, -7818, -6235, -4339, -2225, 0, 2225, 4339, 6235, 7818, 9010, 9749>>,
   <<10000, 9766, 9076, 7961, 6474, 4684, 2675, 541, -1618, -3701, -5612, -7260, -8569, -9477, -9941, -9941, -9477, -8569, -7260, -5612, -3701, -1618, 541, 2675, 4684, 6474, 7961, 9076, 9766>>,
   <<10000, 9781, 9135, 8090, 6691, 5000, 3090, 1045, -1045, -3090, -5000, -6691, -8090, -9135, -9781, -10000, -9781, -9135, -8090, -6691, -5000, -3090, -1045, 1045, 3090, 5000, 6691, 8090, 9135, 9781>>,
   <<10000, 9795, 9190, 8208, 6890, 5290, 3473, 1514, -506, -2507, -4404, -6121, -7588, -8743, -9541, -9949, -9949, -9541, -8743, -7588, -6121, -4404, -2507, -506, 1514, 3473, 5290, 6890, 8208, 9190, 9795>>,
   <<10000, 9808, 9239, 8315, 7071, 5556, 3827, 1951, 0, -1951, -3827, -5556, -7071, -8315, -9239, -9808, -10000, -9808, -9239, -8315, -7071, -5556, -3827, -1951, 0, 1951, 3827, 5556, 7071, 8315, 9239, 9808>> >>
SinTab == << <<0>>,
   <<0, 0>>,
   <<0, 8660, -8660>>,
   <<0, 10000, 0, -10000>>,
   <<0, 9511, 5878, -5878, -9511>>,
   <<0, 8660, 8660, 0, -8660, -8660>>,
   <<0, 7818, 9749, 4339, -4339, -9749, -7818>>,
   <<0, 7071, 10000, 7071, 0, -7071, -10000, -7071>>,
   <<0, 6428, 9848, 8660, 3420, -3420, -8660, -9848, -6428>>,
   <<0, 5878, 9511, 9511, 5878, 0, -5878, -9511, -9511, -5878>>,
   <<0, 5406, 9096, 9898, 7557, 2817, -2817, -7557, -9898, -9096, -5406>>,
   <<0, 5000, 8660, 10000, 8660, 5000, 0, -5000, -8660, -10000, -8660, -5000>>,
   <<0, 4647, 8230, 9927, 9350, 6631, 2393, -2393, -6631, -9350, -9927, -8230, -4647>>,
   <<0, 4339, 7818, 9749, 9749, 7818, 4339, 0, -4339, -7818, -9749, -9749, -7818, -4339>>,
   <<0, 4067, 7431, 9511, 9945, 8660, 5878, 2079, -2079, -5878, -8660, -9945, -9511, -7431, -4067>>,
   <<0, 3827, 7071, 9239, 10000, 9239, 7071, 3827, 0, -3827, -7071, -9239, -10000, -9239, -7071, -3827>>,
   <<0, 3612, 6737, 8952, 9957, 9618, 7980, 5264, 1837, -1837, -5264, -7980, -9618, -9957, -8952, -6737, -3612>>,
   <<0, 3420, 6428, 8660, 9848, 9848, 8660, 6428, 3420, 0, -3420, -6428, -8660, -9848, -9848, -8660, -6428, -3420>>,
   <<0, 3247, 6142, 8372, 9694, 9966, 9158, 7357, 4759, 1646, -1646, -4759, -7357, -9158, -9966, -9694, -8372, -6142, -3247>>,
   <<0, 3090, 5878, 8090, 9511, 10000, 9511, 8090, 5878, 3090, 0, -3090, -5878, -8090, -9511, -10000, -9511, -8090, -5878, -3090>>,
   <<0, 2948, 5633, 7818, 9309, 9972, 9749, 8660, 6802, 4339, 1490, -1490, -4339, -6802, -8660, -9749, -9972, -9309, -7818, -5633, -2948>>,
   <<0, 2817, 5406, 7557, 9096, 9898, 9898, 9096, 7557, 5406, 2817, 0, -2817, -5406, -7557, -9096, -9898, -9898, -9096, -7557, -5406, -2817>>,
   <<0, 2698, 5196, 7308, 8879, 9791, 9977, 9423, 8170, 6311, 3984, 1362, -1362, -3984, -6311, -8170, -9423, -9977, -9791, -8879, -7308, -5196, -2698>>,
   <<0, 2588, 5000, 7071, 8660, 9659, 10000, 9659, 8660, 7071, 5000, 2588, 0, -2588, -5000, -7071, -8660, -9659, -10000, -9659, -8660, -7071, -5000, -2588>>,
   <<0, 2487, 4818, 6845, 8443, 9511, 9980, 9823, 9048, 7705, 5878, 3681, 1253, -1253, -3681, -5878, -7705, -9048, -9823, -9980, -9511, -8443, -6845, -4818, -2487>>,
   <<0, 2393, 4647, 6631, 8230, 9350, 9927, 9927, 9350, 8230, 6631, 4647, 2393, 0, -2393, -4647, -6631, -8230, -9350, -9927, -9927, -9350, -8230, -6631, -4647, -2393>>,
   <<0, 2306, 4488, 6428, 8021, 9182, 9848, 9983, 9580, 8660, 7274, 5495, 3420, 1161, -1161, -3420, -5495, -7274, -8660, -9580, -9983, -9848, -9182, -8021, -6428, -4488, -2306>>,
   <<0, 2225, 4339, 6235, 7818, 9010, 9749, 10000, 9749, 9010, 7818, 6235, 4339, 2225, 0, -2225, -4339, -6235, -7818, -9010, -9749, -10000, -9749, -9010, -7818, -6235, -4339, -2225>>,
   <<0, 2150, 4199, 6052, 7622, 8835, 9635, 9985, 9868, 9290, 8277, 6877, 5156, 3193, 1081, -1081, -3193, -5156, -6877, -8277, -9290, -9868, -9985, -9635, -8835, -7622, -6052, -4199, -2150>>,
   <<0, 2079, 4067, 5878, 7431, 8660, 9511, 9945, 9945, 9511, 8660, 7431, 5878, 4067, 2079, 0, -2079, -4067, -5878, -7431, -8660, -9511, -9945, -9945, -9511, -8660, -7431, -5878, -4067, -2079>>,
   <<0, 2013, 3944, 5713, 7248, 8486, 9378, 9885, 9987, 9681, 8978, 7908, 6514, 4853, 2994, 1012, -1012, -2994, -4853, -6514, -7908, -8978, -9681, -9987, -9885, -9378, -8486, -7248, -5713, -3944, -2013>>,
   <<0, 1951, 3827, 5556, 7071, 8315, 9239, 9808, 10000, 9808, 9239, 8315, 7071, 5556, 3827, 1951, 0, -1951, -3827, -5556, -7071, -8315, -9239, -9808, -10000, -9808, -9239, -8315, -7071, -5556, -3827, -1951>> >>
Cos(k, n) == CosTab[n][(k % n) + 1]
Sin(k, n) == SinTab[n][(k % n) + 1]
(* sine of p/9600 turns, 1e-4 *)
Sine(p) ==
    LET q == p % 9600
        k == q \div 400
        b == ((q % 400) * 6545) \div 1000
        b2 == (b * b) \div 10000
        sb == b - (b * b2) \div 60000
        cb == 10000 - b2 \div 2 + (b2 * b2) \div 240000
    IN  (Sin(k, 24) * cb + Cos(k, 24) * sb) \div 10000
=============================================================================
