"""Periodic-term tables of the NREL Solar Position Algorithm (Reda & Andreas,
NREL/TP-560-34302, Tables A4.2 and A4.3), transcribed separately from the
repository under test; also the published leap second list and the Delta T
table of the U.S. Naval Observatory (monthly, 1973-02 .. 2014-04)."""
L = [
    [
        (175347046.0, 0.0, 0.0),
        (3341656.0, 4.6692568, 6283.07585),
        (34894.0, 4.6261, 12566.1517),
        (3497.0, 2.7441, 5753.3849),
        (3418.0, 2.8289, 3.5231),
        (3136.0, 3.6277, 77713.7715),
        (2676.0, 4.4181, 7860.4194),
        (2343.0, 6.1352, 3930.2097),
        (1324.0, 0.7425, 11506.7698),
        (1273.0, 2.0371, 529.691),
        (1199.0, 1.1096, 1577.3435),
        (990.0, 5.233, 5884.927),
        (902.0, 2.045, 26.298),
        (857.0, 3.508, 398.149),
        (780.0, 1.179, 5223.694),
        (753.0, 2.533, 5507.553),
        (505.0, 4.583, 18849.228),
        (492.0, 4.205, 775.523),
        (357.0, 2.92, 0.067),
        (317.0, 5.849, 11790.629),
        (284.0, 1.899, 796.298),
        (271.0, 0.315, 10977.079),
        (243.0, 0.345, 5486.778),
        (206.0, 4.806, 2544.314),
        (205.0, 1.869, 5573.143),
        (202.0, 2.458, 6069.777),
        (156.0, 0.833, 213.299),
        (132.0, 3.411, 2942.463),
        (126.0, 1.083, 20.775),
        (115.0, 0.645, 0.98),
        (103.0, 0.636, 4694.003),
        (102.0, 0.976, 15720.839),
        (102.0, 4.267, 7.114),
        (99.0, 6.21, 2146.17),
        (98.0, 0.68, 155.42),
        (86.0, 5.98, 161000.69),
        (85.0, 1.3, 6275.96),
        (85.0, 3.67, 71430.7),
        (80.0, 1.81, 17260.15),
        (79.0, 3.04, 12036.46),
        (75.0, 1.76, 5088.63),
        (74.0, 3.5, 3154.69),
        (74.0, 4.68, 801.82),
        (70.0, 0.83, 9437.76),
        (62.0, 3.98, 8827.39),
        (61.0, 1.82, 7084.9),
        (57.0, 2.78, 6286.6),
        (56.0, 4.39, 14143.5),
        (56.0, 3.47, 6279.55),
        (52.0, 0.19, 12139.55),
        (52.0, 1.33, 1748.02),
        (51.0, 0.28, 5856.48),
        (49.0, 0.49, 1194.45),
        (41.0, 5.37, 8429.24),
        (41.0, 2.4, 19651.05),
        (39.0, 6.17, 10447.39),
        (37.0, 6.04, 10213.29),
        (37.0, 2.57, 1059.38),
        (36.0, 1.71, 2352.87),
        (36.0, 1.78, 6812.77),
        (33.0, 0.59, 17789.85),
        (30.0, 0.44, 83996.85),
        (30.0, 2.74, 1349.87),
        (25.0, 3.16, 4690.48),
    ],
    [
        (628331966747.0, 0.0, 0.0),
        (206059.0, 2.678235, 6283.07585),
        (4303.0, 2.6351, 12566.1517),
        (425.0, 1.59, 3.523),
        (119.0, 5.796, 26.298),
        (109.0, 2.966, 1577.344),
        (93.0, 2.59, 18849.23),
        (72.0, 1.14, 529.69),
        (68.0, 1.87, 398.15),
        (67.0, 4.41, 5507.55),
        (59.0, 2.89, 5223.69),
        (56.0, 2.17, 155.42),
        (45.0, 0.4, 796.3),
        (36.0, 0.47, 775.52),
        (29.0, 2.65, 7.11),
        (21.0, 5.34, 0.98),
        (19.0, 1.85, 5486.78),
        (19.0, 4.97, 213.3),
        (17.0, 2.99, 6275.96),
        (16.0, 0.03, 2544.31),
        (16.0, 1.43, 2146.17),
        (15.0, 1.21, 10977.08),
        (12.0, 2.83, 1748.02),
        (12.0, 3.26, 5088.63),
        (12.0, 5.27, 1194.45),
        (12.0, 2.08, 4694.0),
        (11.0, 0.77, 553.57),
        (10.0, 1.3, 6286.6),
        (10.0, 4.24, 1349.87),
        (9.0, 2.7, 242.73),
        (9.0, 5.64, 951.72),
        (8.0, 5.3, 2352.87),
        (6.0, 2.65, 9437.76),
        (6.0, 4.67, 4690.48),
    ],
    [
        (52919.0, 0.0, 0.0),
        (8720.0, 1.0721, 6283.0758),
        (309.0, 0.867, 12566.152),
        (27.0, 0.05, 3.52),
        (16.0, 5.19, 26.3),
        (16.0, 3.68, 155.42),
        (10.0, 0.76, 18849.23),
        (9.0, 2.06, 77713.77),
        (7.0, 0.83, 775.52),
        (5.0, 4.66, 1577.34),
        (4.0, 1.03, 7.11),
        (4.0, 3.44, 5573.14),
        (3.0, 5.14, 796.3),
        (3.0, 6.05, 5507.55),
        (3.0, 1.19, 242.73),
        (3.0, 6.12, 529.69),
        (3.0, 0.31, 398.15),
        (3.0, 2.28, 553.57),
        (2.0, 4.38, 5223.69),
        (2.0, 3.75, 0.98),
    ],
    [
        (289.0, 5.844, 6283.076),
        (35.0, 0.0, 0.0),
        (17.0, 5.49, 12566.15),
        (3.0, 5.2, 155.42),
        (1.0, 4.72, 3.52),
        (1.0, 5.3, 18849.23),
        (1.0, 5.97, 242.73),
    ],
    [
        (114.0, 3.142, 0.0),
        (8.0, 4.13, 6283.08),
        (1.0, 3.84, 12566.15),
    ],
    [
        (1.0, 3.14, 0.0),
    ],
]
B = [
    [
        (280.0, 3.199, 84334.662),
        (102.0, 5.422, 5507.553),
        (80.0, 3.88, 5223.69),
        (44.0, 3.7, 2352.87),
        (32.0, 4.0, 1577.34),
    ],
    [
        (9.0, 3.9, 5507.55),
        (6.0, 1.73, 5223.69),
    ],
]
R = [
    [
        (100013989.0, 0.0, 0.0),
        (1670700.0, 3.0984635, 6283.07585),
        (13956.0, 3.05525, 12566.1517),
        (3084.0, 5.1985, 77713.7715),
        (1628.0, 1.1739, 5753.3849),
        (1576.0, 2.8469, 7860.4194),
        (925.0, 5.453, 11506.77),
        (542.0, 4.564, 3930.21),
        (472.0, 3.661, 5884.927),
        (346.0, 0.964, 5507.553),
        (329.0, 5.9, 5223.694),
        (307.0, 0.299, 5573.143),
        (243.0, 4.273, 11790.629),
        (212.0, 5.847, 1577.344),
        (186.0, 5.022, 10977.079),
        (175.0, 3.012, 18849.228),
        (110.0, 5.055, 5486.778),
        (98.0, 0.89, 6069.78),
        (86.0, 5.69, 15720.84),
        (86.0, 1.27, 161000.69),
        (65.0, 0.27, 17260.15),
        (63.0, 0.92, 529.69),
        (57.0, 2.01, 83996.85),
        (56.0, 5.24, 71430.7),
        (49.0, 3.25, 2544.31),
        (47.0, 2.58, 775.52),
        (45.0, 5.54, 9437.76),
        (43.0, 6.01, 6275.96),
        (39.0, 5.36, 4694.0),
        (38.0, 2.39, 8827.39),
        (37.0, 0.83, 19651.05),
        (37.0, 4.9, 12139.55),
        (36.0, 1.67, 12036.46),
        (35.0, 1.84, 2942.46),
        (33.0, 0.24, 7084.9),
        (32.0, 0.18, 5088.63),
        (32.0, 1.78, 398.15),
        (28.0, 1.21, 6286.6),
        (28.0, 1.9, 6279.55),
        (26.0, 4.59, 10447.39),
    ],
    [
        (103019.0, 1.10749, 6283.07585),
        (1721.0, 1.0644, 12566.1517),
        (702.0, 3.142, 0.0),
        (32.0, 1.02, 18849.23),
        (31.0, 2.84, 5507.55),
        (25.0, 1.32, 5223.69),
        (18.0, 1.42, 1577.34),
        (10.0, 5.91, 10977.08),
        (9.0, 1.42, 6275.96),
        (9.0, 0.27, 5486.78),
    ],
    [
        (4359.0, 5.7846, 6283.0758),
        (124.0, 5.579, 12566.152),
        (12.0, 3.14, 0.0),
        (9.0, 3.63, 77713.77),
        (6.0, 1.87, 5573.14),
        (3.0, 5.47, 18849.23),
    ],
    [
        (145.0, 4.273, 6283.076),
        (7.0, 3.92, 12566.15),
    ],
    [
        (4.0, 2.56, 6283.08),
    ],
]
Y = [
    (0.0, 0.0, 0.0, 0.0, 1.0),
    (-2.0, 0.0, 0.0, 2.0, 2.0),
    (0.0, 0.0, 0.0, 2.0, 2.0),
    (0.0, 0.0, 0.0, 0.0, 2.0),
    (0.0, 1.0, 0.0, 0.0, 0.0),
    (0.0, 0.0, 1.0, 0.0, 0.0),
    (-2.0, 1.0, 0.0, 2.0, 2.0),
    (0.0, 0.0, 0.0, 2.0, 1.0),
    (0.0, 0.0, 1.0, 2.0, 2.0),
    (-2.0, -1.0, 0.0, 2.0, 2.0),
    (-2.0, 0.0, 1.0, 0.0, 0.0),
    (-2.0, 0.0, 0.0, 2.0, 1.0),
    (0.0, 0.0, -1.0, 2.0, 2.0),
    (2.0, 0.0, 0.0, 0.0, 0.0),
    (0.0, 0.0, 1.0, 0.0, 1.0),
    (2.0, 0.0, -1.0, 2.0, 2.0),
    (0.0, 0.0, -1.0, 0.0, 1.0),
    (0.0, 0.0, 1.0, 2.0, 1.0),
    (-2.0, 0.0, 2.0, 0.0, 0.0),
    (0.0, 0.0, -2.0, 2.0, 1.0),
    (2.0, 0.0, 0.0, 2.0, 2.0),
    (0.0, 0.0, 2.0, 2.0, 2.0),
    (0.0, 0.0, 2.0, 0.0, 0.0),
    (-2.0, 0.0, 1.0, 2.0, 2.0),
    (0.0, 0.0, 0.0, 2.0, 0.0),
    (-2.0, 0.0, 0.0, 2.0, 0.0),
    (0.0, 0.0, -1.0, 2.0, 1.0),
    (0.0, 2.0, 0.0, 0.0, 0.0),
    (2.0, 0.0, -1.0, 0.0, 1.0),
    (-2.0, 2.0, 0.0, 2.0, 2.0),
    (0.0, 1.0, 0.0, 0.0, 1.0),
    (-2.0, 0.0, 1.0, 0.0, 1.0),
    (0.0, -1.0, 0.0, 0.0, 1.0),
    (0.0, 0.0, 2.0, -2.0, 0.0),
    (2.0, 0.0, -1.0, 2.0, 1.0),
    (2.0, 0.0, 1.0, 2.0, 2.0),
    (0.0, 1.0, 0.0, 2.0, 2.0),
    (-2.0, 1.0, 1.0, 0.0, 0.0),
    (0.0, -1.0, 0.0, 2.0, 2.0),
    (2.0, 0.0, 0.0, 2.0, 1.0),
    (2.0, 0.0, 1.0, 0.0, 0.0),
    (-2.0, 0.0, 2.0, 2.0, 2.0),
    (-2.0, 0.0, 1.0, 2.0, 1.0),
    (2.0, 0.0, -2.0, 0.0, 1.0),
    (2.0, 0.0, 0.0, 0.0, 1.0),
    (0.0, -1.0, 1.0, 0.0, 0.0),
    (-2.0, -1.0, 0.0, 2.0, 1.0),
    (-2.0, 0.0, 0.0, 0.0, 1.0),
    (0.0, 0.0, 2.0, 2.0, 1.0),
    (-2.0, 0.0, 2.0, 0.0, 1.0),
    (-2.0, 1.0, 0.0, 2.0, 1.0),
    (0.0, 0.0, 1.0, -2.0, 0.0),
    (-1.0, 0.0, 1.0, 0.0, 0.0),
    (-2.0, 1.0, 0.0, 0.0, 0.0),
    (1.0, 0.0, 0.0, 0.0, 0.0),
    (0.0, 0.0, 1.0, 2.0, 0.0),
    (0.0, 0.0, -2.0, 2.0, 2.0),
    (-1.0, -1.0, 1.0, 0.0, 0.0),
    (0.0, 1.0, 1.0, 0.0, 0.0),
    (0.0, -1.0, 1.0, 2.0, 2.0),
    (2.0, -1.0, -1.0, 2.0, 2.0),
    (0.0, 0.0, 3.0, 2.0, 2.0),
    (2.0, -1.0, 0.0, 2.0, 2.0),
]
PE = [
    (-171996.0, -174.2, 92025.0, 8.9),
    (-13187.0, -1.6, 5736.0, -3.1),
    (-2274.0, -0.2, 977.0, -0.5),
    (2062.0, 0.2, -895.0, 0.5),
    (1426.0, -3.4, 54.0, -0.1),
    (712.0, 0.1, -7.0, 0.0),
    (-517.0, 1.2, 224.0, -0.6),
    (-386.0, -0.4, 200.0, 0.0),
    (-301.0, 0.0, 129.0, -0.1),
    (217.0, -0.5, -95.0, 0.3),
    (-158.0, 0.0, 0.0, 0.0),
    (129.0, 0.1, -70.0, 0.0),
    (123.0, 0.0, -53.0, 0.0),
    (63.0, 0.0, 0.0, 0.0),
    (63.0, 0.1, -33.0, 0.0),
    (-59.0, 0.0, 26.0, 0.0),
    (-58.0, -0.1, 32.0, 0.0),
    (-51.0, 0.0, 27.0, 0.0),
    (48.0, 0.0, 0.0, 0.0),
    (46.0, 0.0, -24.0, 0.0),
    (-38.0, 0.0, 16.0, 0.0),
    (-31.0, 0.0, 13.0, 0.0),
    (29.0, 0.0, 0.0, 0.0),
    (29.0, 0.0, -12.0, 0.0),
    (26.0, 0.0, 0.0, 0.0),
    (-22.0, 0.0, 0.0, 0.0),
    (21.0, 0.0, -10.0, 0.0),
    (17.0, -0.1, 0.0, 0.0),
    (16.0, 0.0, -8.0, 0.0),
    (-16.0, 0.1, 7.0, 0.0),
    (-15.0, 0.0, 9.0, 0.0),
    (-13.0, 0.0, 7.0, 0.0),
    (-12.0, 0.0, 6.0, 0.0),
    (11.0, 0.0, 0.0, 0.0),
    (-10.0, 0.0, 5.0, 0.0),
    (-8.0, 0.0, 3.0, 0.0),
    (7.0, 0.0, -3.0, 0.0),
    (-7.0, 0.0, 0.0, 0.0),
    (-7.0, 0.0, 3.0, 0.0),
    (-7.0, 0.0, 3.0, 0.0),
    (6.0, 0.0, 0.0, 0.0),
    (6.0, 0.0, -3.0, 0.0),
    (6.0, 0.0, -3.0, 0.0),
    (-6.0, 0.0, 3.0, 0.0),
    (-6.0, 0.0, 3.0, 0.0),
    (5.0, 0.0, 0.0, 0.0),
    (-5.0, 0.0, 3.0, 0.0),
    (-5.0, 0.0, 3.0, 0.0),
    (-5.0, 0.0, 3.0, 0.0),
    (4.0, 0.0, 0.0, 0.0),
    (4.0, 0.0, 0.0, 0.0),
    (4.0, 0.0, 0.0, 0.0),
    (-4.0, 0.0, 0.0, 0.0),
    (-4.0, 0.0, 0.0, 0.0),
    (-4.0, 0.0, 0.0, 0.0),
    (3.0, 0.0, 0.0, 0.0),
    (-3.0, 0.0, 0.0, 0.0),
    (-3.0, 0.0, 0.0, 0.0),
    (-3.0, 0.0, 0.0, 0.0),
    (-3.0, 0.0, 0.0, 0.0),
    (-3.0, 0.0, 0.0, 0.0),
    (-3.0, 0.0, 0.0, 0.0),
    (-3.0, 0.0, 0.0, 0.0),
]
# (year, month, TT-UT1 in seconds at 0h on the first of that month)
DELTA_T = [
    (1973, 2, 43.4724),
    (1973, 3, 43.5648),
    (1973, 4, 43.6737),
    (1973, 5, 43.7782),
    (1973, 6, 43.8763),
    (1973, 7, 43.9562),
    (1973, 8, 44.0315),
    (1973, 9, 44.1132),
    (1973, 10, 44.1982),
    (1973, 11, 44.2952),
    (1973, 12, 44.3936),
    (1974, 1, 44.4841),
    (1974, 2, 44.5646),
    (1974, 3, 44.6425),
    (1974, 4, 44.7386),
    (1974, 5, 44.837),
    (1974, 6, 44.9302),
    (1974, 7, 44.9986),
    (1974, 8, 45.0584),
    (1974, 9, 45.1284),
    (1974, 10, 45.2064),
    (1974, 11, 45.298),
    (1974, 12, 45.3897),
    (1975, 1, 45.4761),
    (1975, 2, 45.5633),
    (1975, 3, 45.645),
    (1975, 4, 45.7375),
    (1975, 5, 45.8284),
    (1975, 6, 45.9133),
    (1975, 7, 45.982),
    (1975, 8, 46.0408),
    (1975, 9, 46.1067),
    (1975, 10, 46.1825),
    (1975, 11, 46.2789),
    (1975, 12, 46.3713),
    (1976, 1, 46.4567),
    (1976, 2, 46.5445),
    (1976, 3, 46.6311),
    (1976, 4, 46.7302),
    (1976, 5, 46.8284),
    (1976, 6, 46.9247),
    (1976, 7, 46.997),
    (1976, 8, 47.0709),
    (1976, 9, 47.1451),
    (1976, 10, 47.2362),
    (1976, 11, 47.3413),
    (1976, 12, 47.4319),
    (1977, 1, 47.5214),
    (1977, 2, 47.6049),
    (1977, 3, 47.6837),
    (1977, 4, 47.7781),
    (1977, 5, 47.8771),
    (1977, 6, 47.9687),
    (1977, 7, 48.0348),
    (1977, 8, 48.0942),
    (1977, 9, 48.1608),
    (1977, 10, 48.246),
    (1977, 11, 48.3439),
    (1977, 12, 48.4355),
    (1978, 1, 48.5344),
    (1978, 2, 48.6325),
    (1978, 3, 48.7294),
    (1978, 4, 48.8365),
    (1978, 5, 48.9353),
    (1978, 6, 49.0319),
    (1978, 7, 49.1013),
    (1978, 8, 49.1591),
    (1978, 9, 49.2286),
    (1978, 10, 49.307),
    (1978, 11, 49.4018),
    (1978, 12, 49.4945),
    (1979, 1, 49.5862),
    (1979, 2, 49.6805),
    (1979, 3, 49.7602),
    (1979, 4, 49.8556),
    (1979, 5, 49.9489),
    (1979, 6, 50.0347),
    (1979, 7, 50.1019),
    (1979, 8, 50.1622),
    (1979, 9, 50.226),
    (1979, 10, 50.2968),
    (1979, 11, 50.3831),
    (1979, 12, 50.4599),
    (1980, 1, 50.5387),
    (1980, 2, 50.6161),
    (1980, 3, 50.6866),
    (1980, 4, 50.7658),
    (1980, 5, 50.8454),
    (1980, 6, 50.9187),
    (1980, 7, 50.9761),
    (1980, 8, 51.0278),
    (1980, 9, 51.0843),
    (1980, 10, 51.1538),
    (1980, 11, 51.2319),
    (1980, 12, 51.3063),
    (1981, 1, 51.3808),
    (1981, 2, 51.4526),
    (1981, 3, 51.516),
    (1981, 4, 51.5985),
    (1981, 5, 51.6809),
    (1981, 6, 51.7573),
    (1981, 7, 51.8133),
    (1981, 8, 51.8532),
    (1981, 9, 51.9014),
    (1981, 10, 51.9603),
    (1981, 11, 52.0328),
    (1981, 12, 52.0985),
    (1982, 1, 52.1668),
    (1982, 2, 52.2316),
    (1982, 3, 52.2938),
    (1982, 4, 52.368),
    (1982, 5, 52.4465),
    (1982, 6, 52.518),
    (1982, 7, 52.5752),
    (1982, 8, 52.6178),
    (1982, 9, 52.6668),
    (1982, 10, 52.734),
    (1982, 11, 52.8056),
    (1982, 12, 52.8792),
    (1983, 1, 52.9565),
    (1983, 2, 53.0445),
    (1983, 3, 53.1268),
    (1983, 4, 53.2197),
    (1983, 5, 53.3024),
    (1983, 6, 53.3747),
    (1983, 7, 53.4335),
    (1983, 8, 53.4778),
    (1983, 9, 53.53),
    (1983, 10, 53.5845),
    (1983, 11, 53.6523),
    (1983, 12, 53.7256),
    (1984, 1, 53.7882),
    (1984, 2, 53.8367),
    (1984, 3, 53.883),
    (1984, 4, 53.9443),
    (1984, 5, 54.0042),
    (1984, 6, 54.0536),
    (1984, 7, 54.0856),
    (1984, 8, 54.1084),
    (1984, 9, 54.1463),
    (1984, 10, 54.1914),
    (1984, 11, 54.2452),
    (1984, 12, 54.2958),
    (1985, 1, 54.3427),
    (1985, 2, 54.3911),
    (1985, 3, 54.432),
    (1985, 4, 54.4898),
    (1985, 5, 54.5456),
    (1985, 6, 54.5977),
    (1985, 7, 54.6355),
    (1985, 8, 54.6532),
    (1985, 9, 54.6776),
    (1985, 10, 54.7174),
    (1985, 11, 54.7741),
    (1985, 12, 54.8253),
    (1986, 1, 54.8713),
    (1986, 2, 54.9161),
    (1986, 3, 54.9581),
    (1986, 4, 54.9997),
    (1986, 5, 55.0476),
    (1986, 6, 55.0912),
    (1986, 7, 55.1132),
    (1986, 8, 55.1328),
    (1986, 9, 55.1532),
    (1986, 10, 55.1898),
    (1986, 11, 55.2416),
    (1986, 12, 55.2838),
    (1987, 1, 55.3222),
    (1987, 2, 55.3613),
    (1987, 3, 55.4063),
    (1987, 4, 55.4629),
    (1987, 5, 55.5111),
    (1987, 6, 55.5524),
    (1987, 7, 55.5812),
    (1987, 8, 55.6004),
    (1987, 9, 55.6262),
    (1987, 10, 55.6656),
    (1987, 11, 55.7168),
    (1987, 12, 55.7698),
    (1988, 1, 55.8197),
    (1988, 2, 55.8615),
    (1988, 3, 55.913),
    (1988, 4, 55.9663),
    (1988, 5, 56.022),
    (1988, 6, 56.07),
    (1988, 7, 56.0939),
    (1988, 8, 56.1105),
    (1988, 9, 56.1314),
    (1988, 10, 56.1611),
    (1988, 11, 56.2068),
    (1988, 12, 56.2583),
    (1989, 1, 56.3),
    (1989, 2, 56.3399),
    (1989, 3, 56.379),
    (1989, 4, 56.4283),
    (1989, 5, 56.4804),
    (1989, 6, 56.5352),
    (1989, 7, 56.5697),
    (1989, 8, 56.5983),
    (1989, 9, 56.6328),
    (1989, 10, 56.6739),
    (1989, 11, 56.7332),
    (1989, 12, 56.7972),
    (1990, 1, 56.8553),
    (1990, 2, 56.9111),
    (1990, 3, 56.9755),
    (1990, 4, 57.0471),
    (1990, 5, 57.1136),
    (1990, 6, 57.1738),
    (1990, 7, 57.2226),
    (1990, 8, 57.2597),
    (1990, 9, 57.3073),
    (1990, 10, 57.3643),
    (1990, 11, 57.4334),
    (1990, 12, 57.5016),
    (1991, 1, 57.5653),
    (1991, 2, 57.6333),
    (1991, 3, 57.6973),
    (1991, 4, 57.7711),
    (1991, 5, 57.8407),
    (1991, 6, 57.9058),
    (1991, 7, 57.9576),
    (1991, 8, 57.9975),
    (1991, 9, 58.0426),
    (1991, 10, 58.1043),
    (1991, 11, 58.1679),
    (1991, 12, 58.2389),
    (1992, 1, 58.3092),
    (1992, 2, 58.3833),
    (1992, 3, 58.4537),
    (1992, 4, 58.5401),
    (1992, 5, 58.6228),
    (1992, 6, 58.6917),
    (1992, 7, 58.741),
    (1992, 8, 58.7836),
    (1992, 9, 58.8406),
    (1992, 10, 58.8986),
    (1992, 11, 58.9714),
    (1992, 12, 59.0438),
    (1993, 1, 59.1218),
    (1993, 2, 59.2003),
    (1993, 3, 59.2747),
    (1993, 4, 59.3574),
    (1993, 5, 59.4434),
    (1993, 6, 59.5242),
    (1993, 7, 59.585),
    (1993, 8, 59.6344),
    (1993, 9, 59.6928),
    (1993, 10, 59.7588),
    (1993, 11, 59.8386),
    (1993, 12, 59.9111),
    (1994, 1, 59.9845),
    (1994, 2, 60.0564),
    (1994, 3, 60.1231),
    (1994, 4, 60.2042),
    (1994, 5, 60.2804),
    (1994, 6, 60.353),
    (1994, 7, 60.4012),
    (1994, 8, 60.444),
    (1994, 9, 60.49),
    (1994, 10, 60.5578),
    (1994, 11, 60.6324),
    (1994, 12, 60.7059),
    (1995, 1, 60.7853),
    (1995, 2, 60.8664),
    (1995, 3, 60.9387),
    (1995, 4, 61.0277),
    (1995, 5, 61.1103),
    (1995, 6, 61.187),
    (1995, 7, 61.2454),
    (1995, 8, 61.2881),
    (1995, 9, 61.3378),
    (1995, 10, 61.4036),
    (1995, 11, 61.476),
    (1995, 12, 61.5525),
    (1996, 1, 61.6287),
    (1996, 2, 61.6846),
    (1996, 3, 61.7433),
    (1996, 4, 61.8132),
    (1996, 5, 61.8823),
    (1996, 6, 61.9497),
    (1996, 7, 61.9969),
    (1996, 8, 62.0343),
    (1996, 9, 62.0714),
    (1996, 10, 62.1202),
    (1996, 11, 62.181),
    (1996, 12, 62.2382),
    (1997, 1, 62.295),
    (1997, 2, 62.3506),
    (1997, 3, 62.3995),
    (1997, 4, 62.4754),
    (1997, 5, 62.5463),
    (1997, 6, 62.6136),
    (1997, 7, 62.6571),
    (1997, 8, 62.6942),
    (1997, 9, 62.7383),
    (1997, 10, 62.7926),
    (1997, 11, 62.8567),
    (1997, 12, 62.9146),
    (1998, 1, 62.9659),
    (1998, 2, 63.0217),
    (1998, 3, 63.0807),
    (1998, 4, 63.1462),
    (1998, 5, 63.2053),
    (1998, 6, 63.2599),
    (1998, 7, 63.2844),
    (1998, 8, 63.2961),
    (1998, 9, 63.3126),
    (1998, 10, 63.3422),
    (1998, 11, 63.3871),
    (1998, 12, 63.4339),
    (1999, 1, 63.4673),
    (1999, 2, 63.4979),
    (1999, 3, 63.5319),
    (1999, 4, 63.5679),
    (1999, 5, 63.6104),
    (1999, 6, 63.6444),
    (1999, 7, 63.6642),
    (1999, 8, 63.6739),
    (1999, 9, 63.6926),
    (1999, 10, 63.7147),
    (1999, 11, 63.7518),
    (1999, 12, 63.7927),
    (2000, 1, 63.8285),
    (2000, 2, 63.8557),
    (2000, 3, 63.8804),
    (2000, 4, 63.9075),
    (2000, 5, 63.9393),
    (2000, 6, 63.9691),
    (2000, 7, 63.9799),
    (2000, 8, 63.9833),
    (2000, 9, 63.9938),
    (2000, 10, 64.0093),
    (2000, 11, 64.04),
    (2000, 12, 64.067),
    (2001, 1, 64.0908),
    (2001, 2, 64.1068),
    (2001, 3, 64.1282),
    (2001, 4, 64.1584),
    (2001, 5, 64.1833),
    (2001, 6, 64.2094),
    (2001, 7, 64.2117),
    (2001, 8, 64.2073),
    (2001, 9, 64.2116),
    (2001, 10, 64.2223),
    (2001, 11, 64.25),
    (2001, 12, 64.2761),
    (2002, 1, 64.2998),
    (2002, 2, 64.3192),
    (2002, 3, 64.345),
    (2002, 4, 64.3735),
    (2002, 5, 64.3943),
    (2002, 6, 64.4151),
    (2002, 7, 64.4132),
    (2002, 8, 64.4118),
    (2002, 9, 64.4097),
    (2002, 10, 64.4168),
    (2002, 11, 64.4329),
    (2002, 12, 64.4511),
    (2003, 1, 64.4734),
    (2003, 2, 64.4893),
    (2003, 3, 64.5053),
    (2003, 4, 64.5269),
    (2003, 5, 64.5471),
    (2003, 6, 64.5597),
    (2003, 7, 64.5512),
    (2003, 8, 64.5371),
    (2003, 9, 64.5359),
    (2003, 10, 64.5415),
    (2003, 11, 64.5544),
    (2003, 12, 64.5654),
    (2004, 1, 64.5736),
    (2004, 2, 64.5891),
    (2004, 3, 64.6015),
    (2004, 4, 64.6176),
    (2004, 5, 64.6374),
    (2004, 6, 64.6549),
    (2004, 7, 64.653),
    (2004, 8, 64.6379),
    (2004, 9, 64.6372),
    (2004, 10, 64.64),
    (2004, 11, 64.6543),
    (2004, 12, 64.6723),
    (2005, 1, 64.6876),
    (2005, 2, 64.7052),
    (2005, 3, 64.7313),
    (2005, 4, 64.7575),
    (2005, 5, 64.7811),
    (2005, 6, 64.8001),
    (2005, 7, 64.7995),
    (2005, 8, 64.7876),
    (2005, 9, 64.7831),
    (2005, 10, 64.7921),
    (2005, 11, 64.8096),
    (2005, 12, 64.8311),
    (2006, 1, 64.8452),
    (2006, 2, 64.8597),
    (2006, 3, 64.885),
    (2006, 4, 64.9175),
    (2006, 5, 64.948),
    (2006, 6, 64.9794),
    (2006, 7, 64.9895),
    (2006, 8, 65.0028),
    (2006, 9, 65.0138),
    (2006, 10, 65.0371),
    (2006, 11, 65.0773),
    (2006, 12, 65.1122),
    (2007, 1, 65.1464),
    (2007, 2, 65.1833),
    (2007, 3, 65.2145),
    (2007, 4, 65.2494),
    (2007, 5, 65.2921),
    (2007, 6, 65.3279),
    (2007, 7, 65.3413),
    (2007, 8, 65.3452),
    (2007, 9, 65.3496),
    (2007, 10, 65.3711),
    (2007, 11, 65.3972),
    (2007, 12, 65.4296),
    (2008, 1, 65.4573),
    (2008, 2, 65.4868),
    (2008, 3, 65.5152),
    (2008, 4, 65.545),
    (2008, 5, 65.5781),
    (2008, 6, 65.6127),
    (2008, 7, 65.6288),
    (2008, 8, 65.637),
    (2008, 9, 65.6493),
    (2008, 10, 65.676),
    (2008, 11, 65.7097),
    (2008, 12, 65.7461),
    (2009, 1, 65.7768),
    (2009, 2, 65.8025),
    (2009, 3, 65.8237),
    (2009, 4, 65.8595),
    (2009, 5, 65.8973),
    (2009, 6, 65.9323),
    (2009, 7, 65.9509),
    (2009, 8, 65.9534),
    (2009, 9, 65.9628),
    (2009, 10, 65.9839),
    (2009, 11, 66.0147),
    (2009, 12, 66.042),
    (2010, 1, 66.0699),
    (2010, 2, 66.0961),
    (2010, 3, 66.131),
    (2010, 4, 66.1683),
    (2010, 5, 66.2072),
    (2010, 6, 66.2356),
    (2010, 7, 66.2409),
    (2010, 8, 66.2335),
    (2010, 9, 66.2349),
    (2010, 10, 66.2441),
    (2010, 11, 66.2751),
    (2010, 12, 66.3054),
    (2011, 1, 66.3246),
    (2011, 2, 66.3406),
    (2011, 3, 66.3624),
    (2011, 4, 66.3957),
    (2011, 5, 66.4289),
    (2011, 6, 66.4619),
    (2011, 7, 66.4749),
    (2011, 8, 66.4751),
    (2011, 9, 66.4829),
    (2011, 10, 66.5056),
    (2011, 11, 66.5383),
    (2011, 12, 66.5706),
    (2012, 1, 66.603),
    (2012, 2, 66.634),
    (2012, 3, 66.6569),
    (2012, 4, 66.6925),
    (2012, 5, 66.7289),
    (2012, 6, 66.7579),
    (2012, 7, 66.7708),
    (2012, 8, 66.774),
    (2012, 9, 66.7846),
    (2012, 10, 66.8103),
    (2012, 11, 66.84),
    (2012, 12, 66.8779),
    (2013, 1, 66.9069),
    (2013, 2, 66.9443),
    (2013, 3, 66.9763),
    (2013, 4, 67.0258),
    (2013, 5, 67.0716),
    (2013, 6, 67.11),
    (2013, 7, 67.1266),
    (2013, 8, 67.1331),
    (2013, 9, 67.1458),
    (2013, 10, 67.1718),
    (2013, 11, 67.2091),
    (2013, 12, 67.246),
    (2014, 1, 67.281),
    (2014, 2, 67.3136),
    (2014, 3, 67.3457),
    (2014, 4, 67.389),
]
# (year, month, TAI-UTC) effective from 0h UTC on the first of that month (IERS)
LEAP = [
    (1972, 1, 10),
    (1972, 7, 11),
    (1973, 1, 12),
    (1974, 1, 13),
    (1975, 1, 14),
    (1976, 1, 15),
    (1977, 1, 16),
    (1978, 1, 17),
    (1979, 1, 18),
    (1980, 1, 19),
    (1981, 7, 20),
    (1982, 7, 21),
    (1983, 7, 22),
    (1985, 7, 23),
    (1988, 1, 24),
    (1990, 1, 25),
    (1991, 1, 26),
    (1992, 7, 27),
    (1993, 7, 28),
    (1994, 7, 29),
    (1996, 1, 30),
    (1997, 7, 31),
    (1999, 1, 32),
    (2006, 1, 33),
    (2009, 1, 34),
    (2012, 7, 35),
    (2015, 7, 36),
    (2017, 1, 37),
]
