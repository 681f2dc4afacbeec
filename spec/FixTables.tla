------------------------------ MODULE FixTables ------------------------------
(* Written by tools/mktables.py.                                              *)
(* SoftT[k+1]  = 10^5 log10(1 + 10^(-k/100))                                   *)
(* PowT[k+1]   = 10^6 10^(k/500)                                               *)
(* LogT[k-99]  = 10^5 log10(k/100), k = 100..1000                              *)
(* ErfT[k+1]   = 10^6 erf(k/100)                                               *)
SoftT == <<30103, 29606, 29115, 28629, 28149, 27675, 27207, 26744, 26287, 25836, 25390, 24950,
  24516, 24088, 23665, 23247, 22836, 22430, 22029, 21634, 21244, 20860, 20481, 20108,
  19740, 19378, 19020, 18668, 18322, 17980, 17643, 17312, 16986, 16665, 16349, 16037,
  15731, 15430, 15133, 14841, 14554, 14272, 13994, 13721, 13452, 13188, 12928, 12673,
  12422, 12175, 11933, 11695, 11461, 11231, 11005, 10783, 10565, 10351, 10141, 9935,
  9732, 9533, 9338, 9146, 8958, 8774, 8592, 8415, 8240, 8069, 7901, 7736,
  7575, 7416, 7261, 7108, 6959, 6812, 6668, 6527, 6389, 6254, 6121, 5991,
  5863, 5738, 5616, 5496, 5378, 5263, 5150, 5039, 4931, 4824, 4720, 4618,
  4519, 4421, 4325, 4231, 4139, 4049, 3961, 3875, 3790, 3708, 3627, 3548,
  3470, 3394, 3320, 3247, 3175, 3106, 3037, 2971, 2905, 2841, 2779, 2717,
  2657, 2599, 2541, 2485, 2430, 2376, 2323, 2272, 2221, 2172, 2124, 2077,
  2030, 1985, 1941, 1898, 1856, 1814, 1774, 1734, 1695, 1658, 1621, 1584,
  1549, 1514, 1480, 1447, 1415, 1383, 1352, 1322, 1292, 1263, 1235, 1207,
  1180, 1153, 1128, 1102, 1077, 1053, 1030, 1006, 984, 962, 940, 919,
  898, 878, 858, 839, 820, 801, 783, 766, 748, 731, 715, 699,
  683, 667, 652, 638, 623, 609, 595, 582, 569, 556, 543, 531,
  519, 507, 496, 485, 474, 463, 452, 442, 432, 422, 413, 403,
  394, 385, 377, 368, 360, 352, 344, 336, 328, 321, 313, 306,
  299, 293, 286, 280, 273, 267, 261, 255, 249, 244, 238, 233,
  227, 222, 217, 212, 207, 203, 198, 194, 189, 185, 181, 177,
  173, 169, 165, 161, 157, 154, 150, 147, 144, 140, 137, 134,
  131, 128, 125, 122, 119, 117, 114, 111, 109, 106, 104, 102,
  99, 97, 95, 93, 91, 89, 87, 85, 83, 81, 79, 77,
  75, 74, 72, 70, 69, 67, 66, 64, 63, 61, 60, 59,
  57, 56, 55, 53, 52, 51, 50, 49, 48, 47, 45, 44,
  43, 42, 41, 41, 40, 39, 38, 37, 36, 35, 34, 34,
  33, 32, 31, 31, 30, 29, 29, 28, 27, 27, 26, 26,
  25, 24, 24, 23, 23, 22, 22, 21, 21, 20, 20, 19,
  19, 19, 18, 18, 17, 17, 17, 16, 16, 15, 15, 15,
  14, 14, 14, 13, 13, 13, 13, 12, 12, 12, 11, 11,
  11, 11, 10, 10, 10, 10, 10, 9, 9, 9, 9, 8,
  8, 8, 8, 8, 8, 7, 7, 7, 7, 7, 7, 6,
  6, 6, 6, 6, 6, 6, 5, 5, 5, 5, 5, 5,
  5, 5, 5, 4, 4, 4, 4, 4, 4, 4, 4, 4,
  4, 4, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3,
  3, 3, 3, 3, 2, 2, 2, 2, 2, 2, 2, 2,
  2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2,
  2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1,
  1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
  1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
  1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
  1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0>>
PowT == <<1000000, 1004616, 1009253, 1013911, 1018591, 1023293, 1028016, 1032761, 1037528, 1042317, 1047129, 1051962,
  1056818, 1061696, 1066596, 1071519, 1076465, 1081434, 1086426, 1091440, 1096478, 1101539, 1106624, 1111732,
  1116863, 1122018, 1127197, 1132400, 1137627, 1142878, 1148154, 1153453, 1158777, 1164126, 1169499, 1174898,
  1180321, 1185769, 1191242, 1196741, 1202264, 1207814, 1213389, 1218990, 1224616, 1230269, 1235947, 1241652,
  1247384, 1253141, 1258925, 1264736, 1270574, 1276439, 1282331, 1288250, 1294196, 1300170, 1306171, 1312200,
  1318257, 1324342, 1330454, 1336596, 1342765, 1348963, 1355189, 1361445, 1367729, 1374042, 1380384, 1386756,
  1393157, 1399587, 1406048, 1412538, 1419058, 1425608, 1432188, 1438799, 1445440, 1452112, 1458814, 1465548,
  1472313, 1479108, 1485936, 1492794, 1499685, 1506607, 1513561, 1520548, 1527566, 1534617, 1541700, 1548817,
  1555966, 1563148, 1570363, 1577611, 1584893, 1592209, 1599558, 1606941, 1614359, 1621810, 1629296, 1636817,
  1644372, 1651962, 1659587, 1667247, 1674943, 1682674, 1690441, 1698244, 1706082, 1713957, 1721869, 1729816,
  1737801, 1745822, 1753881, 1761976, 1770109, 1778279, 1786488, 1794734, 1803018, 1811340, 1819701, 1828100,
  1836538, 1845015, 1853532, 1862087, 1870682, 1879317, 1887991, 1896706, 1905461, 1914256, 1923092, 1931968,
  1940886, 1949845, 1958845, 1967886, 1976970, 1986095, 1995262, 2004472, 2013724, 2023019, 2032357, 2041738,
  2051162, 2060630, 2070141, 2079697, 2089296, 2098940, 2108628, 2118361, 2128139, 2137962, 2147830, 2157744,
  2167704, 2177710, 2187762, 2197860, 2208005, 2218196, 2228435, 2238721, 2249055, 2259436, 2269865, 2280342,
  2290868, 2301442, 2312065, 2322737, 2333458, 2344229, 2355049, 2365920, 2376840, 2387811, 2398833, 2409905,
  2421029, 2432204, 2443431, 2454709, 2466039, 2477422, 2488857, 2500345, 2511886, 2523481, 2535129, 2546830,
  2558586, 2570396, 2582260, 2594179, 2606154, 2618183, 2630268, 2642409, 2654606, 2666859, 2679168, 2691535,
  2703958, 2716439, 2728978, 2741574, 2754229, 2766942, 2779713, 2792544, 2805434, 2818383, 2831392, 2844461,
  2857591, 2870781, 2884032, 2897344, 2910717, 2924152, 2937650, 2951209, 2964831, 2978516, 2992265, 3006076,
  3019952, 3033891, 3047895, 3061963, 3076097, 3090295, 3104560, 3118890, 3133286, 3147748, 3162278, 3176874,
  3191538, 3206269, 3221069, 3235937, 3250873, 3265878, 3280953, 3296097, 3311311, 3326596, 3341950, 3357376,
  3372873, 3388442, 3404082, 3419794, 3435579, 3451437, 3467369, 3483373, 3499452, 3515604, 3531832, 3548134,
  3564511, 3580964, 3597493, 3614099, 3630781, 3647539, 3664376, 3681290, 3698282, 3715352, 3732502, 3749730,
  3767038, 3784426, 3801894, 3819443, 3837072, 3854784, 3872576, 3890451, 3908409, 3926449, 3944573, 3962780,
  3981072, 3999447, 4017908, 4036454, 4055085, 4073803, 4092607, 4111497, 4130475, 4149540, 4168694, 4187936,
  4207266, 4226686, 4246196, 4265795, 4285485, 4305266, 4325138, 4345102, 4365158, 4385307, 4405549, 4425884,
  4446313, 4466836, 4487454, 4508167, 4528976, 4549881, 4570882, 4591980, 4613176, 4634469, 4655861, 4677351,
  4698941, 4720630, 4742420, 4764310, 4786301, 4808393, 4830588, 4852885, 4875285, 4897788, 4920395, 4943107,
  4965923, 4988845, 5011872, 5035006, 5058247, 5081594, 5105050, 5128614, 5152286, 5176068, 5199960, 5223962,
  5248075, 5272299, 5296634, 5321083, 5345644, 5370318, 5395106, 5420009, 5445027, 5470160, 5495409, 5520774,
  5546257, 5571857, 5597576, 5623413, 5649370, 5675446, 5701643, 5727960, 5754399, 5780960, 5807644, 5834451,
  5861382, 5888437, 5915616, 5942922, 5970353, 5997911, 6025596, 6053409, 6081350, 6109420, 6137620, 6165950,
  6194411, 6223003, 6251727, 6280584, 6309573, 6338697, 6367955, 6397348, 6426877, 6456542, 6486344, 6516284,
  6546362, 6576578, 6606934, 6637431, 6668068, 6698846, 6729767, 6760830, 6792036, 6823387, 6854882, 6886523,
  6918310, 6950243, 6982324, 7014553, 7046931, 7079458, 7112135, 7144963, 7177943, 7211075, 7244360, 7277798,
  7311391, 7345139, 7379042, 7413102, 7447320, 7481695, 7516229, 7550922, 7585776, 7620790, 7655966, 7691304,
  7726806, 7762471, 7798301, 7834296, 7870458, 7906786, 7943282, 7979947, 8016781, 8053784, 8090959, 8128305,
  8165824, 8203515, 8241381, 8279422, 8317638, 8356030, 8394600, 8433348, 8472274, 8511380, 8550667, 8590135,
  8629785, 8669619, 8709636, 8749838, 8790225, 8830799, 8871560, 8912509, 8953648, 8994976, 9036495, 9078205,
  9120108, 9162205, 9204496, 9246982, 9289664, 9332543, 9375620, 9418896, 9462372, 9506048, 9549926, 9594006,
  9638290, 9682779, 9727472, 9772372, 9817479, 9862795, 9908319, 9954054, 10000000>>
LogT == <<0, 432, 860, 1284, 1703, 2119, 2531, 2938, 3342, 3743, 4139, 4532,
  4922, 5308, 5690, 6070, 6446, 6819, 7188, 7555, 7918, 8279, 8636, 8991,
  9342, 9691, 10037, 10380, 10721, 11059, 11394, 11727, 12057, 12385, 12710, 13033,
  13354, 13672, 13988, 14301, 14613, 14922, 15229, 15534, 15836, 16137, 16435, 16732,
  17026, 17319, 17609, 17898, 18184, 18469, 18752, 19033, 19312, 19590, 19866, 20140,
  20412, 20683, 20952, 21219, 21484, 21748, 22011, 22272, 22531, 22789, 23045, 23300,
  23553, 23805, 24055, 24304, 24551, 24797, 25042, 25285, 25527, 25768, 26007, 26245,
  26482, 26717, 26951, 27184, 27416, 27646, 27875, 28103, 28330, 28556, 28780, 29003,
  29226, 29447, 29667, 29885, 30103, 30320, 30535, 30750, 30963, 31175, 31387, 31597,
  31806, 32015, 32222, 32428, 32634, 32838, 33041, 33244, 33445, 33646, 33846, 34044,
  34242, 34439, 34635, 34830, 35025, 35218, 35411, 35603, 35793, 35984, 36173, 36361,
  36549, 36736, 36922, 37107, 37291, 37475, 37658, 37840, 38021, 38202, 38382, 38561,
  38739, 38917, 39094, 39270, 39445, 39620, 39794, 39967, 40140, 40312, 40483, 40654,
  40824, 40993, 41162, 41330, 41497, 41664, 41830, 41996, 42160, 42325, 42488, 42651,
  42813, 42975, 43136, 43297, 43457, 43616, 43775, 43933, 44091, 44248, 44404, 44560,
  44716, 44871, 45025, 45179, 45332, 45484, 45637, 45788, 45939, 46090, 46240, 46389,
  46538, 46687, 46835, 46982, 47129, 47276, 47422, 47567, 47712, 47857, 48001, 48144,
  48287, 48430, 48572, 48714, 48855, 48996, 49136, 49276, 49415, 49554, 49693, 49831,
  49969, 50106, 50243, 50379, 50515, 50651, 50786, 50920, 51055, 51188, 51322, 51455,
  51587, 51720, 51851, 51983, 52114, 52244, 52375, 52504, 52634, 52763, 52892, 53020,
  53148, 53275, 53403, 53529, 53656, 53782, 53908, 54033, 54158, 54283, 54407, 54531,
  54654, 54777, 54900, 55023, 55145, 55267, 55388, 55509, 55630, 55751, 55871, 55991,
  56110, 56229, 56348, 56467, 56585, 56703, 56820, 56937, 57054, 57171, 57287, 57403,
  57519, 57634, 57749, 57864, 57978, 58092, 58206, 58320, 58433, 58546, 58659, 58771,
  58883, 58995, 59106, 59218, 59329, 59439, 59550, 59660, 59770, 59879, 59988, 60097,
  60206, 60314, 60423, 60531, 60638, 60746, 60853, 60959, 61066, 61172, 61278, 61384,
  61490, 61595, 61700, 61805, 61909, 62014, 62118, 62221, 62325, 62428, 62531, 62634,
  62737, 62839, 62941, 63043, 63144, 63246, 63347, 63448, 63548, 63649, 63749, 63849,
  63949, 64048, 64147, 64246, 64345, 64444, 64542, 64640, 64738, 64836, 64933, 65031,
  65128, 65225, 65321, 65418, 65514, 65610, 65706, 65801, 65896, 65992, 66087, 66181,
  66276, 66370, 66464, 66558, 66652, 66745, 66839, 66932, 67025, 67117, 67210, 67302,
  67394, 67486, 67578, 67669, 67761, 67852, 67943, 68034, 68124, 68215, 68305, 68395,
  68485, 68574, 68664, 68753, 68842, 68931, 69020, 69108, 69197, 69285, 69373, 69461,
  69548, 69636, 69723, 69810, 69897, 69984, 70070, 70157, 70243, 70329, 70415, 70501,
  70586, 70672, 70757, 70842, 70927, 71012, 71096, 71181, 71265, 71349, 71433, 71517,
  71600, 71684, 71767, 71850, 71933, 72016, 72099, 72181, 72263, 72346, 72428, 72509,
  72591, 72673, 72754, 72835, 72916, 72997, 73078, 73159, 73239, 73320, 73400, 73480,
  73560, 73640, 73719, 73799, 73878, 73957, 74036, 74115, 74194, 74273, 74351, 74429,
  74507, 74586, 74663, 74741, 74819, 74896, 74974, 75051, 75128, 75205, 75282, 75358,
  75435, 75511, 75587, 75664, 75740, 75815, 75891, 75967, 76042, 76118, 76193, 76268,
  76343, 76418, 76492, 76567, 76641, 76716, 76790, 76864, 76938, 77012, 77085, 77159,
  77232, 77305, 77379, 77452, 77525, 77597, 77670, 77743, 77815, 77887, 77960, 78032,
  78104, 78176, 78247, 78319, 78390, 78462, 78533, 78604, 78675, 78746, 78817, 78888,
  78958, 79029, 79099, 79169, 79239, 79309, 79379, 79449, 79518, 79588, 79657, 79727,
  79796, 79865, 79934, 80003, 80072, 80140, 80209, 80277, 80346, 80414, 80482, 80550,
  80618, 80686, 80754, 80821, 80889, 80956, 81023, 81090, 81158, 81224, 81291, 81358,
  81425, 81491, 81558, 81624, 81690, 81757, 81823, 81889, 81954, 82020, 82086, 82151,
  82217, 82282, 82347, 82413, 82478, 82543, 82607, 82672, 82737, 82802, 82866, 82930,
  82995, 83059, 83123, 83187, 83251, 83315, 83378, 83442, 83506, 83569, 83632, 83696,
  83759, 83822, 83885, 83948, 84011, 84073, 84136, 84198, 84261, 84323, 84386, 84448,
  84510, 84572, 84634, 84696, 84757, 84819, 84880, 84942, 85003, 85065, 85126, 85187,
  85248, 85309, 85370, 85431, 85491, 85552, 85612, 85673, 85733, 85794, 85854, 85914,
  85974, 86034, 86094, 86153, 86213, 86273, 86332, 86392, 86451, 86510, 86570, 86629,
  86688, 86747, 86806, 86864, 86923, 86982, 87040, 87099, 87157, 87216, 87274, 87332,
  87390, 87448, 87506, 87564, 87622, 87679, 87737, 87795, 87852, 87910, 87967, 88024,
  88081, 88138, 88195, 88252, 88309, 88366, 88423, 88480, 88536, 88593, 88649, 88705,
  88762, 88818, 88874, 88930, 88986, 89042, 89098, 89154, 89209, 89265, 89321, 89376,
  89432, 89487, 89542, 89597, 89653, 89708, 89763, 89818, 89873, 89927, 89982, 90037,
  90091, 90146, 90200, 90255, 90309, 90363, 90417, 90472, 90526, 90580, 90634, 90687,
  90741, 90795, 90849, 90902, 90956, 91009, 91062, 91116, 91169, 91222, 91275, 91328,
  91381, 91434, 91487, 91540, 91593, 91645, 91698, 91751, 91803, 91855, 91908, 91960,
  92012, 92065, 92117, 92169, 92221, 92273, 92324, 92376, 92428, 92480, 92531, 92583,
  92634, 92686, 92737, 92788, 92840, 92891, 92942, 92993, 93044, 93095, 93146, 93197,
  93247, 93298, 93349, 93399, 93450, 93500, 93551, 93601, 93651, 93702, 93752, 93802,
  93852, 93902, 93952, 94002, 94052, 94101, 94151, 94201, 94250, 94300, 94349, 94399,
  94448, 94498, 94547, 94596, 94645, 94694, 94743, 94792, 94841, 94890, 94939, 94988,
  95036, 95085, 95134, 95182, 95231, 95279, 95328, 95376, 95424, 95472, 95521, 95569,
  95617, 95665, 95713, 95761, 95809, 95856, 95904, 95952, 95999, 96047, 96095, 96142,
  96190, 96237, 96284, 96332, 96379, 96426, 96473, 96520, 96567, 96614, 96661, 96708,
  96755, 96802, 96848, 96895, 96942, 96988, 97035, 97081, 97128, 97174, 97220, 97267,
  97313, 97359, 97405, 97451, 97497, 97543, 97589, 97635, 97681, 97727, 97772, 97818,
  97864, 97909, 97955, 98000, 98046, 98091, 98137, 98182, 98227, 98272, 98318, 98363,
  98408, 98453, 98498, 98543, 98588, 98632, 98677, 98722, 98767, 98811, 98856, 98900,
  98945, 98989, 99034, 99078, 99123, 99167, 99211, 99255, 99300, 99344, 99388, 99432,
  99476, 99520, 99564, 99607, 99651, 99695, 99739, 99782, 99826, 99870, 99913, 99957,
  100000>>
ErfT == <<0, 11283, 22565, 33841, 45111, 56372, 67622, 78858, 90078, 101281, 112463, 123623,
  134758, 145867, 156947, 167996, 179012, 189992, 200936, 211840, 222703, 233522, 244296, 255023,
  265700, 276326, 286900, 297418, 307880, 318283, 328627, 338908, 349126, 359279, 369365, 379382,
  389330, 399206, 409009, 418739, 428392, 437969, 447468, 456887, 466225, 475482, 484655, 493745,
  502750, 511668, 520500, 529244, 537899, 546464, 554939, 563323, 571616, 579816, 587923, 595936,
  603856, 611681, 619411, 627046, 634586, 642029, 649377, 656628, 663782, 670840, 677801, 684666,
  691433, 698104, 704678, 711156, 717537, 723822, 730010, 736103, 742101, 748003, 753811, 759524,
  765143, 770668, 776100, 781440, 786687, 791843, 796908, 801883, 806768, 811564, 816271, 820891,
  825424, 829870, 834232, 838508, 842701, 846810, 850838, 854784, 858650, 862436, 866144, 869773,
  873326, 876803, 880205, 883533, 886788, 889971, 893082, 896124, 899096, 902000, 904837, 907608,
  910314, 912956, 915534, 918050, 920505, 922900, 925236, 927514, 929734, 931899, 934008, 936063,
  938065, 940015, 941914, 943762, 945561, 947312, 949016, 950673, 952285, 953852, 955376, 956857,
  958297, 959695, 961054, 962373, 963654, 964898, 966105, 967277, 968413, 969516, 970586, 971623,
  972628, 973603, 974547, 975462, 976348, 977207, 978038, 978843, 979622, 980376, 981105, 981810,
  982493, 983153, 983790, 984407, 985003, 985578, 986135, 986672, 987190, 987691, 988174, 988641,
  989091, 989525, 989943, 990347, 990736, 991111, 991472, 991821, 992156, 992479, 992790, 993090,
  993378, 993656, 993923, 994179, 994426, 994664, 994892, 995111, 995322, 995525, 995719, 995906,
  996086, 996258, 996423, 996582, 996734, 996880, 997021, 997155, 997284, 997407, 997525, 997639,
  997747, 997851, 997951, 998046, 998137, 998224, 998308, 998388, 998464, 998537, 998607, 998674,
  998738, 998799, 998857, 998912, 998966, 999016, 999065, 999111, 999155, 999197, 999237, 999275,
  999311, 999346, 999379, 999411, 999441, 999469, 999497, 999523, 999547, 999571, 999593, 999614,
  999635, 999654, 999672, 999689, 999706, 999722, 999736, 999751, 999764, 999777, 999789, 999800,
  999811, 999822, 999831, 999841, 999849, 999858, 999866, 999873, 999880, 999887, 999893, 999899,
  999905, 999910, 999916, 999920, 999925, 999929, 999933, 999937, 999941, 999944, 999948, 999951,
  999954, 999956, 999959, 999961, 999964, 999966, 999968, 999970, 999972, 999973, 999975, 999976,
  999978, 999979, 999981, 999982, 999983, 999984, 999985, 999986, 999987, 999988, 999988, 999989,
  999990, 999990, 999991, 999992, 999992, 999993, 999993, 999994, 999994, 999994, 999995, 999995,
  999995, 999996, 999996, 999996, 999996, 999997, 999997, 999997, 999997, 999998, 999998, 999998,
  999998, 999998, 999998, 999998, 999998, 999999, 999999, 999999, 999999, 999999, 999999, 999999,
  999999, 999999, 999999, 999999, 999999, 999999, 999999, 999999, 1000000, 1000000, 1000000, 1000000,
  1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000,
  1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000,
  1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000,
  1000000, 1000000, 1000000, 1000000, 1000000, 1000000>>
==============================================================================
