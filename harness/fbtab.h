// Short point lists that only a circle through another middle point covers (generated; limits within 0.04 mm of the tolerance).
static const int FBN[] = {4, 4, 5, 4, 4, 5, 4, 5, 4, 4, 4, 4, 4, 4, 4, 4, 5, 4, 5, 5, 4, 4, 4, 4, 5, 5, 4, 5, 5, 5, 4, 5, 5, 5, 5, 5};
static const double FB[][10] = {{95.68, 91.07, 93.26, 92.95, 92.14, 94, 92.07, 94.48}, {95.11, 108.61, 96.33, 109.06, 97.97, 109.82, 98.39, 109.72}, {96.77, 109.5, 96.41, 109.24, 95.09, 108.81, 92.85, 107.35, 92.18, 106.12}, {90.39, 100.95, 90.32, 99.47, 90.61, 97.72, 92.28, 93.49}, {107.85, 93.6, 107.35, 93.19, 106.1, 91.74, 102.77, 90.35}, {90.91, 97, 91.94, 94.76, 92.19, 94.21, 94.5, 91.48, 95, 91.39}, {90.93, 103.48, 91.46, 104.53, 91.86, 105.51, 91.59, 106.19}, {109.74, 102.56, 109.66, 103, 109.17, 104.03, 107.07, 106.42, 104.91, 108.13}, {93.77, 108.33, 93.54, 107.59, 92.56, 106.66, 92.14, 106.18}, {101.08, 109.99, 100.59, 109.98, 98.16, 109.66, 97.79, 109.26}, {90.18, 99.78, 90.3, 101.35, 90.73, 102.91, 93.08, 107.56}, {89.68, 100.46, 89.68, 98.51, 90.97, 96.01, 92.04, 94.63}, {95.51, 90.78, 94.97, 91.16, 94.36, 91.21, 92.6, 92.59}, {101.44, 109.72, 103.96, 108.67, 105.87, 107.53, 109.66, 103.75}, {98.74, 89.73, 103.97, 91.16, 105.26, 91.65, 107.67, 93.57}, {90.1, 97.87, 90.26, 99.21, 90.16, 100.8, 90.77, 102.97}, {108.7, 104.77, 107.98, 106.39, 107.55, 106.88, 107.33, 107.44, 104.54, 108.73}, {99.75, 109.53, 94.49, 108.07, 93.91, 107.96, 92.64, 107.05}, {103.23, 90.19, 99.73, 90.19, 99.17, 90.1, 98.8, 90.08, 93.45, 92.12}, {91.08, 104.71, 90.91, 104.09, 90.97, 103.61, 90.18, 102.56, 89.97, 101.96}, {109.78, 101.92, 107.2, 106.56, 105.68, 108.36, 104.62, 109.1}, {93.46, 107.07, 90.66, 103.09, 90.43, 102.79, 89.86, 102.39}, {91.64, 94.85, 91.41, 95.25, 90.01, 97.45, 89.82, 99.01}, {108.21, 94.56, 106.37, 92.9, 102.64, 90.79, 101.15, 89.99}, {92.24, 106.79, 92.06, 106.46, 91.73, 105.26, 91.75, 104.73, 90.3, 98.44}, {95.11, 91.34, 92.93, 92.61, 92.12, 93.52, 91.1, 96.21, 90.91, 96.68}, {106.91, 92.33, 107.43, 93.5, 109.58, 96.11, 109.74, 96.44}, {106.67, 107.37, 105.56, 108.32, 103.91, 109.28, 102.11, 109.55, 99.58, 109.73}, {91.75, 93.94, 91.05, 95.45, 90.22, 99.16, 90.21, 99.56, 91.19, 104.15}, {100.3, 110.04, 100.73, 110.02, 102.22, 110.15, 103.91, 109.38, 106.01, 107.38}, {94.35, 108.28, 97.62, 109.61, 101.89, 109.89, 102.37, 109.91}, {106.33, 91.79, 106.87, 92.12, 107.07, 92.48, 108.47, 95.1, 108.86, 96.42}, {94.36, 108.76, 94.75, 108.97, 95.77, 109.54, 98.55, 110.03, 98.9, 110.18}, {96.57, 109.58, 96.08, 109.47, 94.86, 108.51, 92.35, 105.78, 90.27, 102}, {99.64, 109.95, 102.17, 109.85, 105.25, 108.91, 106.51, 108.1, 108.32, 105.78}, {109.08, 103.15, 108.58, 104.41, 108.17, 105.58, 106.09, 107.7, 105.27, 108.64}};
