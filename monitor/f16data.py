"""Published F-16 data (Stevens & Lewis, Aircraft Control and Simulation, appendix A; Morelli 1998), re-tabulated as the oracle's own copy.

Tables are indexed [second variable][alpha], alpha = -10, -5, ..., 45 degrees."""

CX = [
    [-0.099, -0.081, -0.081, -0.063, -0.025, 0.044, 0.097, 0.113, 0.145, 0.167, 0.174, 0.166],
    [-0.048, -0.038, -0.04, -0.021, 0.016, 0.083, 0.127, 0.137, 0.162, 0.177, 0.179, 0.167],
    [-0.022, -0.02, -0.021, -0.004, 0.032, 0.094, 0.128, 0.13, 0.154, 0.161, 0.155, 0.138],
    [-0.04, -0.038, -0.039, -0.025, 0.006, 0.062, 0.087, 0.085, 0.1, 0.11, 0.104, 0.091],
    [-0.083, -0.073, -0.076, -0.072, -0.046, 0.012, 0.024, 0.025, 0.043, 0.053, 0.047, 0.04],
]
CZ = [
    [0.77, 0.241, -0.1, -0.415, -0.731, -1.053, -1.355, -1.646, -1.917, -2.12, -2.248, -2.229],
]
CL = [
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [-0.001, -0.004, -0.008, -0.012, -0.016, -0.022, -0.022, -0.021, -0.015, -0.008, -0.013, -0.015],
    [-0.003, -0.009, -0.017, -0.024, -0.03, -0.041, -0.045, -0.04, -0.016, -0.002, -0.01, -0.019],
    [-0.001, -0.01, -0.02, -0.03, -0.039, -0.054, -0.057, -0.054, -0.023, -0.006, -0.014, -0.027],
    [0.0, -0.01, -0.022, -0.034, -0.047, -0.06, -0.069, -0.067, -0.033, -0.036, -0.035, -0.035],
    [0.007, -0.01, -0.023, -0.034, -0.049, -0.063, -0.081, -0.079, -0.06, -0.058, -0.062, -0.059],
    [0.009, -0.011, -0.023, -0.037, -0.05, -0.068, -0.089, -0.088, -0.091, -0.076, -0.077, -0.076],
]
CM = [
    [0.205, 0.168, 0.186, 0.196, 0.213, 0.251, 0.245, 0.238, 0.252, 0.231, 0.198, 0.192],
    [0.081, 0.077, 0.107, 0.11, 0.11, 0.141, 0.127, 0.119, 0.133, 0.108, 0.081, 0.093],
    [-0.046, -0.02, -0.009, -0.005, -0.006, 0.01, 0.006, -0.001, 0.014, 0.0, -0.013, 0.032],
    [-0.174, -0.145, -0.121, -0.127, -0.129, -0.102, -0.097, -0.113, -0.087, -0.084, -0.069, -0.006],
    [-0.259, -0.202, -0.184, -0.193, -0.199, -0.15, -0.16, -0.167, -0.104, -0.076, -0.041, -0.005],
]
CN = [
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.018, 0.019, 0.018, 0.019, 0.019, 0.018, 0.013, 0.007, 0.004, -0.014, -0.017, -0.033],
    [0.038, 0.042, 0.042, 0.042, 0.043, 0.039, 0.03, 0.017, 0.004, -0.035, -0.047, -0.057],
    [0.056, 0.057, 0.059, 0.058, 0.058, 0.053, 0.032, 0.012, 0.002, -0.046, -0.071, -0.073],
    [0.064, 0.077, 0.076, 0.074, 0.073, 0.057, 0.029, 0.007, 0.012, -0.034, -0.065, -0.041],
    [0.074, 0.086, 0.093, 0.089, 0.08, 0.062, 0.049, 0.022, 0.028, -0.012, -0.002, -0.013],
    [0.079, 0.09, 0.106, 0.106, 0.096, 0.08, 0.068, 0.03, 0.064, 0.015, 0.011, -0.001],
]
DLDA = [
    [-0.041, -0.052, -0.053, -0.056, -0.05, -0.056, -0.082, -0.059, -0.042, -0.038, -0.027, -0.017],
    [-0.041, -0.053, -0.053, -0.053, -0.05, -0.051, -0.066, -0.043, -0.038, -0.027, -0.023, -0.016],
    [-0.042, -0.053, -0.052, -0.051, -0.049, -0.049, -0.043, -0.035, -0.026, -0.016, -0.018, -0.014],
    [-0.04, -0.052, -0.051, -0.052, -0.048, -0.048, -0.042, -0.037, -0.031, -0.026, -0.017, -0.012],
    [-0.043, -0.049, -0.048, -0.049, -0.043, -0.042, -0.042, -0.036, -0.025, -0.021, -0.016, -0.011],
    [-0.044, -0.048, -0.048, -0.047, -0.042, -0.041, -0.02, -0.028, -0.013, -0.014, -0.011, -0.01],
    [-0.043, -0.049, -0.047, -0.045, -0.042, -0.037, -0.003, -0.013, -0.01, -0.003, -0.007, -0.008],
]
DLDR = [
    [0.005, 0.017, 0.014, 0.01, -0.005, 0.009, 0.019, 0.005, -0.0, -0.005, -0.011, 0.008],
    [0.007, 0.016, 0.014, 0.014, 0.013, 0.009, 0.012, 0.005, 0.0, 0.004, 0.009, 0.007],
    [0.013, 0.013, 0.011, 0.012, 0.011, 0.009, 0.008, 0.005, -0.002, 0.005, 0.003, 0.005],
    [0.018, 0.015, 0.015, 0.014, 0.014, 0.014, 0.014, 0.015, 0.013, 0.011, 0.006, 0.001],
    [0.015, 0.014, 0.013, 0.013, 0.012, 0.011, 0.011, 0.01, 0.008, 0.008, 0.007, 0.003],
    [0.021, 0.011, 0.01, 0.011, 0.01, 0.009, 0.008, 0.01, 0.006, 0.005, 0.0, 0.001],
    [0.023, 0.01, 0.011, 0.011, 0.011, 0.01, 0.008, 0.01, 0.006, 0.014, 0.02, 0.0],
]
DNDA = [
    [0.001, -0.027, -0.017, -0.013, -0.012, -0.016, 0.001, 0.017, 0.011, 0.017, 0.008, 0.016],
    [0.002, -0.014, -0.016, -0.016, -0.014, -0.019, -0.021, 0.002, 0.012, 0.016, 0.015, 0.011],
    [-0.006, -0.008, -0.006, -0.006, -0.005, -0.008, -0.005, 0.007, 0.004, 0.007, 0.006, 0.006],
    [-0.011, -0.011, -0.01, -0.009, -0.008, -0.006, 0.0, 0.004, 0.007, 0.01, 0.004, 0.01],
    [-0.015, -0.015, -0.014, -0.012, -0.011, -0.008, -0.002, 0.002, 0.006, 0.012, 0.011, 0.011],
    [-0.024, -0.01, -0.004, -0.002, -0.001, 0.003, 0.014, 0.006, -0.001, 0.004, 0.004, 0.006],
    [-0.022, 0.002, -0.003, -0.005, -0.003, -0.001, -0.009, -0.009, -0.001, 0.003, -0.002, 0.001],
]
DNDR = [
    [-0.018, -0.052, -0.052, -0.052, -0.054, -0.049, -0.059, -0.051, -0.03, -0.037, -0.026, -0.013],
    [-0.028, -0.051, -0.043, -0.046, -0.045, -0.049, -0.057, -0.052, -0.03, -0.033, -0.03, -0.008],
    [-0.037, -0.041, -0.038, -0.04, -0.04, -0.038, -0.037, -0.03, -0.027, -0.024, -0.019, -0.013],
    [-0.048, -0.045, -0.045, -0.045, -0.044, -0.045, -0.047, -0.048, -0.049, -0.045, -0.033, -0.016],
    [-0.043, -0.044, -0.041, -0.041, -0.04, -0.038, -0.034, -0.035, -0.035, -0.029, -0.022, -0.009],
    [-0.052, -0.034, -0.036, -0.036, -0.035, -0.028, -0.024, -0.023, -0.02, -0.016, -0.01, -0.014],
    [-0.062, -0.034, -0.027, -0.028, -0.027, -0.027, -0.023, -0.023, -0.019, -0.009, -0.025, -0.01],
]
DAMPP = [
    [-0.267, -0.11, 0.308, 1.34, 2.08, 2.91, 2.76, 2.05, 1.5, 1.49, 1.83, 1.21],
    [0.882, 0.852, 0.876, 0.958, 0.962, 0.974, 0.819, 0.483, 0.59, 1.21, -0.493, -1.04],
    [-0.108, -0.108, -0.188, 0.11, 0.258, 0.226, 0.344, 0.362, 0.611, 0.529, 0.298, -2.27],
    [-8.8, -25.8, -28.9, -31.4, -31.2, -30.7, -27.7, -28.2, -29.0, -29.8, -38.3, -35.3],
    [-0.126, -0.026, 0.063, 0.113, 0.208, 0.23, 0.319, 0.437, 0.68, 0.1, 0.447, -0.33],
    [-0.36, -0.359, -0.443, -0.42, -0.383, -0.375, -0.329, -0.294, -0.23, -0.21, -0.12, -0.1],
    [-7.21, -0.54, -5.23, -5.26, -6.11, -6.64, -5.69, -6.0, -6.2, -6.4, -6.6, -6.0],
    [-0.38, -0.363, -0.378, -0.386, -0.37, -0.453, -0.55, -0.582, -0.595, -0.637, -1.02, -0.84],
    [0.061, 0.052, 0.052, -0.012, -0.013, -0.024, 0.05, 0.15, 0.13, 0.158, 0.24, 0.15],
]
THRUST_A = [
    [1060.0, 670.0, 880.0, 1140.0, 1500.0, 1860.0],
    [635.0, 425.0, 690.0, 1010.0, 1330.0, 1700.0],
    [60.0, 25.0, 345.0, 755.0, 1130.0, 1525.0],
    [-1020.0, -170.0, -300.0, 350.0, 910.0, 1360.0],
    [-2700.0, -1900.0, -1300.0, -247.0, 600.0, 1100.0],
    [-3600.0, -1400.0, -595.0, -342.0, -200.0, 700.0],
]
THRUST_B = [
    [12680.0, 9150.0, 6200.0, 3950.0, 2450.0, 1400.0],
    [12680.0, 9150.0, 6313.0, 4040.0, 2470.0, 1400.0],
    [12610.0, 9312.0, 6610.0, 4290.0, 2600.0, 1560.0],
    [12640.0, 9839.0, 7090.0, 4660.0, 2840.0, 1660.0],
    [12390.0, 10176.0, 7750.0, 5320.0, 3250.0, 1930.0],
    [11680.0, 9848.0, 8050.0, 6100.0, 3800.0, 2310.0],
]
THRUST_C = [
    [20000.0, 15000.0, 10800.0, 7000.0, 4000.0, 2500.0],
    [21420.0, 15700.0, 11225.0, 7323.0, 4435.0, 2600.0],
    [22700.0, 16860.0, 12250.0, 8154.0, 5000.0, 2835.0],
    [24240.0, 18910.0, 13760.0, 9285.0, 5700.0, 3215.0],
    [26070.0, 21075.0, 15975.0, 11115.0, 6860.0, 3950.0],
    [28886.0, 23319.0, 18300.0, 13484.0, 8642.0, 5057.0],
]

MORELLI = {
    "a": [-0.01943367, 0.2136104, -0.2903457, -0.003348641, -0.2060504, 0.6988016, -0.9035381],
    "b": [0.4833383, 8.644627, 11.31098, -74.22961, 60.75776],
    "c": [-1.145916, 0.06016057, 0.1642479],
    "d": [-0.1006733, 0.8679799, 4.260586, -6.923267],
    "e": [0.8071648, 0.1189633, 4.177702, -9.162236],
    "f": [-0.1378278, -4.211369, 4.775187, -10.26225, 8.399763, -0.4354],
    "g": [-30.54956, -41.32305, 329.2788, -684.8038, 408.0244],
    "h": [-0.105853, -0.5776677, -0.01672435, 0.1357256, 0.2172952, 3.464156, -2.835451, -1.098104],
    "i": [-0.4126806, -0.1189974, 1.247721, -0.7391132],
    "j": [0.06250437, 0.6067723, -1.101964, 9.100087, -11.92672],
    "k": [-0.1463144, -0.0407391, 0.03253159, 0.4851209, 0.297885, -0.3746393, -0.3213068],
    "l": [0.02635729, -0.0219291, -0.003152901, -0.05817803, 0.4516159, -0.4928702, -0.01579864],
    "m": [-0.0202937, 0.04660702, -0.6012308, -0.08062977, 0.08320429, 0.5018538, 0.6378864, 0.4226356],
    "n": [-5.19153, -3.554716, -35.98636, 224.7355, -412.0991, 241.175],
    "o": [0.2993363, 0.06594004, -0.2003125, -0.06233977, -2.107885, 2.14142, 0.8476901],
    "p": [0.02677652, -0.3298246, 0.1926178, 4.013325, -4.404302],
    "q": [-0.3698756, -0.1167551, -0.7641297],
    "r": [-0.03348717, 0.04276655, 0.006573646, 0.3535831, -1.373308, 1.237582, 0.2302543, -0.2512876, 0.1588105, -0.5199526],
    "s": [-0.08115894, -0.0115658, 0.02514167, 0.2038748, -0.3337476, 0.1004297],
}
