-------------------------------- MODULE PiDigits --------------------------------
(* floor(pi * 10^6400), least significant group of four digits first.  MCReals checks it against Machin. *)
PiScale == 6400
PiLong == <<
  8510, 1833, 8088, 7866, 8740, 3491, 5298, 2750, 263, 8516, 754, 9869, 61, 5444, 6449, 3890, 4090, 4846, 1144, 3017, 6231, 9371, 2859, 1212,
  1960, 8745, 8440, 117, 6965, 1280, 138, 1722, 3345, 3922, 2989, 5170, 389, 6435, 3233, 5168, 500, 5130, 2916, 2424, 3770, 9003, 6084, 7268,
  7684, 2784, 1737, 1697, 1921, 90, 9699, 1314, 6778, 2591, 4297, 7058, 1887, 9853, 6187, 5202, 2082, 760, 5191, 3932, 9119, 9410, 1136, 3571,
  1451, 7909, 2540, 7455, 2635, 7464, 7291, 9475, 9587, 9639, 2888, 7526, 4328, 7340, 1403, 7799, 4553, 9306, 2991, 2916, 1954, 2577, 4252, 6163,
  5240, 6679, 6187, 2901, 2460, 6877, 8450, 3595, 1315, 3372, 5454, 9062, 6611, 2085, 2083, 4204, 5627, 4492, 6760, 1362, 4396, 916, 4747, 2510,
  758, 5876, 2900, 480, 4803, 2773, 9535, 2603, 8579, 8246, 4624, 8764, 688, 7756, 577, 3163, 8478, 7285, 2939, 2648, 7224, 3850, 5803, 2098,
  4965, 2690, 7055, 8655, 5865, 9562, 3415, 4914, 6213, 1965, 3934, 1658, 5201, 2854, 2909, 5185, 3788, 8164, 3047, 4701, 131, 3528, 9411, 9806,
  6517, 1925, 2512, 8404, 6312, 4931, 8350, 3113, 4369, 3492, 73, 6057, 4730, 1344, 1572, 7707, 6790, 7317, 5280, 2771, 2019, 7787, 8784, 4745,
  9470, 3465, 7726, 2822, 4144, 3746, 5913, 408, 987, 771, 3913, 983, 9703, 9695, 7687, 3467, 3813, 2606, 1199, 1477, 3531, 2058, 2437, 7538,
  9449, 2783, 5423, 3362, 8330, 3407, 3181, 1275, 9456, 6267, 4643, 8062, 5171, 4014, 3562, 814, 279, 5487, 5859, 4710, 2355, 777, 5045, 2803,
  4776, 354, 6763, 2735, 3606, 6863, 9326, 2861, 6365, 3166, 1332, 2816, 5988, 197, 2636, 4909, 6280, 6609, 9051, 1201, 7092, 2077, 4532, 4565,
  2075, 3177, 7734, 8638, 7103, 2777, 4809, 3181, 4191, 4993, 3162, 6738, 7345, 5444, 9948, 3418, 1541, 1952, 3344, 7929, 7639, 5418, 665, 3199,
  4160, 7777, 5319, 3146, 3734, 2720, 5126, 4281, 4460, 5233, 2973, 5578, 1617, 1588, 7860, 8935, 5122, 4716, 3776, 159, 6230, 3798, 5738, 6889,
  8221, 6250, 4223, 9779, 706, 8969, 3237, 924, 9794, 9658, 6314, 141, 4037, 2435, 48, 9964, 8068, 2382, 6928, 8067, 8009, 4366, 2465, 4229,
  8672, 2947, 1677, 2974, 5381, 1673, 3195, 9819, 6315, 3021, 6457, 9658, 1623, 5695, 4721, 3260, 8741, 8886, 8099, 9860, 6312, 1842, 7744, 4473,
  9341, 541, 3978, 2599, 7693, 8780, 6340, 3309, 4893, 9844, 9530, 1504, 1589, 2477, 6222, 3513, 8674, 403, 567, 8354, 5072, 5023, 673, 5159,
  367, 8177, 5230, 3642, 6547, 9472, 1862, 4963, 5660, 9501, 1495, 5751, 1337, 7792, 1963, 6171, 2296, 4, 419, 6082, 2118, 317, 2104, 2847,
  2902, 2560, 7869, 8800, 7488, 4162, 7166, 3832, 8076, 2091, 6571, 3609, 3067, 6385, 7214, 2656, 9769, 9003, 3937, 3366, 6284, 6540, 114, 4945,
  6549, 8986, 4873, 2547, 1669, 6077, 1591, 7172, 6223, 7986, 1829, 2175, 633, 5043, 3758, 2881, 6142, 8530, 1571, 332, 5454, 2548, 2414, 7262,
  6477, 7947, 2131, 1472, 9412, 8010, 9904, 8085, 2870, 5140, 8691, 319, 5032, 5647, 7828, 429, 1179, 7131, 9389, 8901, 6145, 7359, 1895, 4375,
  7340, 6210, 1329, 9947, 463, 8903, 9614, 1129, 7450, 7791, 6454, 2966, 5178, 1357, 5675, 5176, 6125, 4737, 7965, 990, 5923, 9792, 1550, 1647,
  1302, 8594, 2622, 2501, 1400, 6158, 9557, 2114, 5420, 7752, 7163, 9545, 4067, 5757, 3306, 8089, 5235, 9830, 7856, 2858, 6343, 6830, 826, 9727,
  8807, 4645, 5466, 814, 9939, 3326, 8547, 407, 2700, 711, 1314, 9456, 5389, 2230, 2056, 4704, 2749, 171, 1344, 7659, 3787, 7002, 6800, 6140,
  1456, 6975, 5867, 4318, 4344, 3061, 4085, 2665, 6541, 5529, 6084, 1855, 7877, 6579, 3962, 6680, 9441, 5324, 6867, 3657, 4611, 8503, 3348, 1045,
  1179, 6486, 5987, 3606, 729, 5810, 185, 5662, 5863, 2570, 6931, 5647, 8620, 2691, 8965, 3109, 2065, 4668, 3763, 5785, 1105, 2547, 7309, 6655,
  396, 1166, 2721, 2652, 105, 7162, 3252, 4682, 104, 4411, 8915, 731, 8028, 2697, 7732, 3410, 2624, 6864, 3039, 4189, 4334, 7262, 7685, 4495,
  2131, 2658, 2355, 7831, 8684, 9522, 9838, 3766, 8596, 2444, 6084, 2151, 9293, 44, 1011, 7621, 8019, 3303, 3020, 191, 2112, 7469, 3070, 4440,
  3773, 1809, 7656, 9132, 1702, 3744, 8524, 7589, 4903, 382, 3032, 1388, 1428, 3604, 3058, 3667, 9746, 9325, 3911, 9382, 6548, 5732, 4433, 1208,
  2997, 6097, 2332, 5923, 2890, 7128, 9575, 4488, 992, 9943, 981, 8027, 6371, 9461, 4985, 4165, 5481, 7091, 2590, 4675, 6420, 8570, 3089, 3293,
  6321, 5489, 2618, 8932, 8535, 4791, 5076, 1635, 2833, 3455, 2387, 5998, 9898, 4909, 5088, 1556, 1835, 6576, 1437, 8517, 5116, 1651, 1970, 3150,
  6398, 5851, 9086, 1369, 6711, 1412, 1103, 3467, 5103, 67, 4421, 914, 9882, 5136, 5791, 1083, 2512, 9657, 9353, 3520, 8718, 3222, 4858, 7127,
  3506, 8017, 9152, 1690, 1098, 7229, 7116, 1756, 2209, 6957, 5270, 957, 4706, 9164, 4882, 4148, 9198, 2157, 8673, 6125, 2618, 1918, 2928, 2053,
  1471, 3125, 2187, 3594, 3176, 5876, 2305, 6007, 6993, 3378, 420, 5770, 6771, 9515, 3975, 4390, 6280, 7120, 1109, 4140, 9706, 1028, 1459, 5257,
  3840, 4736, 6357, 9981, 8796, 665, 5081, 1005, 6856, 7962, 3905, 5145, 6496, 1734, 8633, 7104, 8190, 3408, 1324, 6002, 1866, 7325, 2850, 9744,
  2014, 5925, 1466, 6054, 9202, 3454, 4477, 8038, 306, 4215, 1501, 9966, 5625, 2182, 4672, 773, 9792, 3906, 830, 7787, 3893, 9566, 7855, 6213,
  937, 142, 8193, 6038, 5231, 5022, 1465, 8095, 4520, 5679, 1961, 9423, 1864, 907, 4894, 2397, 2691, 7514, 8146, 9561, 1591, 3910, 9998, 9217,
  7181, 5123, 4374, 4406, 8754, 6342, 4196, 2061, 3995, 1979, 8191, 1927, 6749, 4680, 7061, 53, 8481, 9104, 4531, 218, 643, 9435, 8751, 1386,
  4457, 3321, 8968, 4784, 7808, 8744, 1983, 9062, 7853, 3105, 2007, 374, 9344, 279, 359, 7654, 145, 8711, 9371, 2484, 4295, 2314, 9536, 3596,
  1021, 7166, 1342, 5231, 5739, 5473, 1413, 1051, 6782, 2658, 4795, 5844, 5428, 4364, 4623, 5237, 1451, 7964, 1323, 7555, 7047, 142, 7564, 485,
  6588, 8722, 9894, 6829, 4821, 2978, 8931, 9781, 6554, 2613, 5985, 967, 7149, 9009, 3858, 8249, 917, 7476, 9208, 8680, 1792, 3086, 1503, 6010,
  9405, 8748, 6722, 1368, 5669, 9314, 7108, 8879, 2522, 940, 6596, 5109, 4794, 6069, 1507, 1125, 4324, 6817, 6345, 5593, 9803, 4564, 577, 8623,
  3548, 6116, 5659, 9864, 7823, 6672, 9546, 2549, 3852, 2521, 8895, 6767, 2674, 9452, 4273, 168, 8506, 5602, 1584, 8648, 2848, 2258, 2072, 5342,
  4063, 5848, 6855, 6948, 9441, 1608, 1296, 7700, 3599, 6914, 7715, 8079, 7627, 6549, 4413, 4512, 4390, 4388, 512, 4608, 9912, 6260, 6222, 3673,
  6538, 5848, 4469, 2736, 5987, 8084, 5246, 9972, 3104, 9594, 5953, 2524, 8559, 5991, 7415, 9427, 3868, 6868, 1382, 8468, 5392, 1617, 8930, 7549,
  7729, 5959, 9788, 4105, 8387, 985, 5157, 6461, 2169, 9372, 9250, 9065, 8091, 1429, 5143, 3996, 1749, 5245, 4962, 8203, 506, 4553, 4437, 3639,
  6401, 902, 7699, 6014, 8482, 7826, 7194, 7726, 8940, 5224, 2620, 2582, 7098, 2595, 9835, 4683, 1269, 7895, 7640, 9465, 9009, 275, 478, 1339,
  9958, 2645, 6583, 8908, 2413, 7396, 6575, 7764, 8746, 9172, 4371, 5636, 9609, 3786, 2371, 471, 4945, 3919, 6220, 4278, 674, 1863, 661, 2221,
  2850, 1965, 424, 9456, 8626, 2848, 841, 4896, 9298, 1173, 5205, 2512, 642, 680, 6095, 7863, 3883, 95, 4541, 6681, 6797, 8279, 4383, 8578,
  7860, 2791, 2723, 9886, 6804, 5346, 6016, 494, 7179, 8876, 4256, 5025, 2725, 2184, 1922, 992, 5562, 6948, 9835, 2518, 1686, 7624, 4547, 4333,
  3941, 3907, 2332, 4385, 9468, 4184, 4757, 2133, 5255, 1573, 1361, 4816, 5685, 1973, 4144, 3501, 4772, 1721, 1732, 9192, 4524, 161, 7060, 8164,
  8000, 2793, 7777, 8909, 4672, 1757, 8184, 2551, 2786, 5425, 7426, 6980, 5663, 7753, 3479, 8818, 9119, 6549, 4806, 236, 5596, 2027, 4987, 6534,
  3211, 2955, 930, 7975, 7210, 9092, 9956, 6926, 8858, 4945, 8505, 4983, 7067, 4555, 8297, 2861, 5030, 8631, 9245, 1219, 2164, 3417, 6009, 8163,
  3547, 6782, 2279, 2699, 2604, 9927, 9141, 3263, 9647, 2474, 7640, 3558, 4300, 3382, 1125, 1935, 8150, 5803, 240, 6966, 6205, 7521, 2104, 8915,
  289, 3677, 9331, 4912, 9069, 8425, 466, 6208, 3464, 475, 7104, 2684, 7747, 5379, 4825, 4494, 7837, 4676, 1989, 5596, 4295, 1819, 4710, 6010,
  7076, 3563, 6160, 8583, 4012, 4882, 98, 1139, 167, 9277, 400, 5506, 3192, 4939, 3746, 7546, 8381, 7509, 8890, 7855, 6172, 1168, 9533, 5082,
  6959, 4150, 4245, 8572, 5574, 3151, 4791, 5283, 2177, 2497, 3891, 9941, 6225, 5773, 6899, 8529, 5301, 5203, 3019, 8230, 2796, 3818, 6153, 6593,
  2788, 5863, 6548, 2010, 5257, 3809, 1989, 6420, 921, 1959, 6611, 2787, 19, 6613, 2680, 1712, 532, 5778, 7818, 1957, 9375, 7875, 2353, 6388,
  5628, 1159, 6873, 7554, 428, 5349, 5982, 7303, 6914, 1776, 617, 8142, 2083, 7533, 8658, 7528, 7838, 313, 100, 8171, 3118, 2619, 5035, 4468,
  2533, 2308, 4252, 3026, 6908, 5534, 4594, 5024, 1859, 963, 2816, 3173, 597, 9951, 7804, 3729, 9998, 4999, 2113, 8707, 6051, 3099, 4771, 2977,
  8136, 8159, 3441, 8640, 1960, 2902, 1121, 9956, 4201, 9235, 9258, 7968, 7922, 1050, 8537, 5495, 146, 5343, 2249, 901, 6844, 7214, 7178, 7363,
  6091, 7789, 4275, 7713, 7785, 6082, 2635, 7145, 6812, 5, 5132, 6940, 4676, 4818, 8467, 7523, 3176, 7629, 2171, 539, 277, 9437, 9860, 217,
  1907, 4737, 9522, 9463, 1394, 8602, 6430, 656, 6244, 6733, 9833, 4912, 119, 8183, 2793, 8912, 2724, 8575, 3518, 9567, 6274, 3799, 4462, 4807,
  1185, 3105, 1179, 9326, 7381, 8611, 921, 1953, 5959, 3657, 7270, 3305, 6094, 1511, 5194, 1469, 1384, 6652, 8204, 548, 3053, 113, 360, 9259,
  3678, 5364, 9171, 2540, 2829, 2096, 5209, 4881, 8817, 3155, 6606, 8700, 7245, 1273, 4914, 2602, 3607, 1339, 6482, 4326, 1045, 3486, 3460, 6692,
  6485, 9145, 190, 2712, 3165, 8678, 2337, 5648, 2847, 4461, 5933, 7566, 8109, 4428, 8196, 9303, 8954, 2294, 6446, 5559, 2110, 9385, 2701, 8410,
  4502, 1117, 2848, 4081, 5359, 3172, 5822, 9550, 4460, 938, 6647, 8230, 5132, 8086, 8214, 679, 2117, 2534, 348, 8628, 899, 2862, 6406, 781,
  5923, 4944, 2097, 1058, 9375, 6939, 1971, 2884, 7950, 3832, 2643, 3846, 7932, 3589, 9265, 1415, 3 >>
=============================================================================
