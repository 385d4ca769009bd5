// Constituents of the FES prediction (Schureman 1958, tables 2 and 2a, and the
// documentation of fes/wave.hpp): name, long period, admittance, (T, s, h, p, N',
// p1, quarter turns), (xi, nu, nu', nu''), node factor, Doodson number.
W(0, "Mm", 1, 0, 0, 1, 0, -1, 0, 0, 0, 0, 0, 0, F_MM, "065455")
W(1, "Mf", 1, 0, 0, 2, 0, 0, 0, 0, -2, 0, 0, 0, F_MF, "075555")
W(2, "Mtm", 1, 0, 0, 3, 0, -1, 0, 0, -2, 0, 0, 0, F_MF, "085455")
W(3, "Msqm", 1, 0, 0, 4, -2, 0, 0, 0, -2, 0, 0, 0, F_MF, "093555")
W(4, "2Q1", 0, 1, 1, -4, 1, 2, 0, 1, 2, -1, 0, 0, F_O1, "116755")
W(5, "Sigma1", 0, 1, 1, -4, 3, 0, 0, 1, 2, -1, 0, 0, F_O1, "118555")
W(6, "Q1", 0, 0, 1, -3, 1, 1, 0, 1, 2, -1, 0, 0, F_O1, "126655")
W(7, "Rho1", 0, 1, 1, -3, 3, -1, 0, 1, 2, -1, 0, 0, F_O1, "128455")
W(8, "O1", 0, 0, 1, -2, 1, 0, 0, 1, 2, -1, 0, 0, F_O1, "136555")
W(9, "MP1", 0, 0, 1, -2, 3, 0, 0, -1, 0, -1, 0, 0, F_J1, "138555")
W(10, "M11", 0, 1, 1, -1, 1, 1, 0, -1, 0, -1, 0, 0, F_J1, "146655")
W(11, "M12", 0, 1, 1, -1, 1, -1, 0, -1, 2, -1, 0, 0, F_O1, "146455")
W(12, "M13", 0, 0, 1, -1, 1, 1, 0, -1, 0, -1, 0, 0, F_M1, "146655")
W(13, "Chi1", 0, 1, 1, -1, 3, -1, 0, -1, 0, -1, 0, 0, F_J1, "148455")
W(14, "Pi1", 0, 1, 1, 0, -2, 0, 1, 1, 0, 0, 0, 0, F_1, "153556")
W(15, "P1", 0, 0, 1, 0, -1, 0, 0, 1, 0, 0, 0, 0, F_1, "154555")
W(16, "S1", 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, F_1, "155555")
W(17, "K1", 0, 0, 1, 0, 1, 0, 0, -1, 0, 0, -1, 0, F_K1, "156555")
W(18, "Psi1", 0, 0, 1, 0, 2, 0, -1, -1, 0, 0, 0, 0, F_1, "157554")
W(19, "Phi1", 0, 1, 1, 0, 3, 0, 0, -1, 0, 0, 0, 0, F_1, "158555")
W(20, "Theta1", 0, 1, 1, 1, -1, 1, 0, -1, 0, -1, 0, 0, F_J1, "164655")
W(21, "J1", 0, 1, 1, 1, 1, -1, 0, -1, 0, -1, 0, 0, F_J1, "166455")
W(22, "OO1", 0, 1, 1, 2, 1, 0, 0, -1, -2, -1, 0, 0, F_OO1, "176555")
W(23, "MNS2", 0, 0, 2, -5, 4, 1, 0, 0, 4, -4, 0, 0, F_M22, "209655")
W(24, "Eps2", 0, 1, 2, -5, 4, 1, 0, 0, 2, -2, 0, 0, F_M2, "209655")
W(25, "2N2", 0, 1, 2, -4, 2, 2, 0, 0, 2, -2, 0, 0, F_M2, "217755")
W(26, "Mu2", 0, 1, 2, -4, 4, 0, 0, 0, 2, -2, 0, 0, F_M2, "219555")
W(27, "2MS2", 0, 0, 2, -4, 4, 0, 0, 0, 4, -4, 0, 0, F_M22, "219555")
W(28, "N2", 0, 0, 2, -3, 2, 1, 0, 0, 2, -2, 0, 0, F_M2, "227655")
W(29, "Nu2", 0, 1, 2, -3, 4, -1, 0, 0, 2, -2, 0, 0, F_M2, "229455")
W(30, "M2", 0, 0, 2, -2, 2, 0, 0, 0, 2, -2, 0, 0, F_M2, "237555")
W(31, "MKS2", 0, 0, 2, -2, 4, 0, 0, 0, 2, -2, 0, -2, F_M2_K2, "239555")
W(32, "Lambda2", 0, 1, 2, -1, 0, 1, 0, 2, 2, -2, 0, 0, F_M2, "245655")
W(33, "L2", 0, 1, 2, -1, 2, -1, 0, 2, 2, -2, 0, 0, F_L2, "247455")
W(34, "2MN2", 0, 0, 2, -1, 2, -1, 0, 2, 2, -2, 0, 0, F_M23, "247455")
W(35, "T2", 0, 1, 2, 0, -1, 0, 1, 0, 0, 0, 0, 0, F_1, "254556")
W(36, "S2", 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, F_1, "255555")
W(37, "R2", 0, 0, 2, 0, 1, 0, -1, 2, 0, 0, 0, 0, F_1, "256554")
W(38, "K2", 0, 0, 2, 0, 2, 0, 0, 0, 0, 0, 0, -2, F_K2, "257555")
W(39, "MSN2", 0, 0, 2, 1, 0, -1, 0, 0, 0, 0, 0, 0, F_M22, "265455")
W(40, "Eta2", 0, 1, 2, 1, 2, -1, 0, 0, 0, -2, 0, 0, F_79, "267455")
W(41, "2SM2", 0, 0, 2, 2, -2, 0, 0, 0, -2, 2, 0, 0, F_M2, "273555")
W(42, "MO3", 0, 0, 3, -4, 3, 0, 0, 1, 4, -3, 0, 0, F_M2_O1, "318555")
W(43, "2MK3", 0, 0, 3, -4, 3, 0, 0, 1, 4, -4, 1, 0, F_M22_K1, "318555")
W(44, "M3", 0, 0, 3, -3, 3, 0, 0, 0, 3, -3, 0, 0, F_M3, "328555")
W(45, "MK3", 0, 0, 3, -2, 3, 0, 0, -1, 2, -2, -1, 0, F_M2_K1, "338555")
W(46, "N4", 0, 0, 4, -6, 4, 2, 0, 0, 4, -4, 0, 0, F_M22, "4*9755")
W(47, "MN4", 0, 0, 4, -5, 4, 1, 0, 0, 4, -4, 0, 0, F_M22, "409655")
W(48, "M4", 0, 0, 4, -4, 4, 0, 0, 0, 4, -4, 0, 0, F_M22, "419555")
W(49, "SN4", 0, 0, 4, -3, 2, 1, 0, 0, 2, -2, 0, 0, F_M2, "427655")
W(50, "MS4", 0, 0, 4, -2, 2, 0, 0, 0, 2, -2, 0, 0, F_M2, "437555")
W(51, "MK4", 0, 0, 4, -2, 4, 0, 0, 0, 2, -2, -2, 0, F_M2_K2, "439555")
W(52, "S4", 0, 0, 4, 0, 0, 0, 0, 0, 0, 0, 0, 0, F_1, "455555")
W(53, "SK4", 0, 0, 4, 0, 2, 0, 0, 0, 0, 0, 0, -2, F_K2, "457555")
W(54, "R4", 0, 0, 4, 0, 2, 0, -2, 0, 0, 0, 0, 0, F_1, "457553")
W(55, "2MN6", 0, 0, 6, -7, 6, 1, 0, 0, 6, -6, 0, 0, F_M23, "6-2E655")
W(56, "M6", 0, 0, 6, -6, 6, 0, 0, 0, 6, -6, 0, 0, F_M23, "6*E555")
W(57, "MSN6", 0, 0, 6, -5, 4, 1, 0, 0, 4, -4, 0, 0, F_M22, "609655")
W(58, "2MS6", 0, 0, 6, -4, 4, 0, 0, 0, 4, -4, 0, 0, F_M22, "619555")
W(59, "2MK6", 0, 0, 6, -4, 6, 0, 0, 0, 4, -4, 0, -2, F_M22_K2, "61E555")
W(60, "2SM6", 0, 0, 6, -2, 2, 0, 0, 0, 2, -2, 0, 0, F_M2, "637555")
W(61, "MSK6", 0, 0, 6, -2, 4, 0, 0, 0, 2, -2, -2, 0, F_M2_K2, "639555")
W(62, "S6", 0, 0, 6, 0, 0, 0, 0, 0, 0, 0, 0, 0, F_1, "655555")
W(63, "M8", 0, 0, 8, -8, 8, 0, 0, 0, 8, -8, 0, 0, F_M24, "8-313555")
W(64, "MSf", 1, 0, 0, 2, -2, 0, 0, 0, 2, -2, 0, 0, F_M2, "073555")
W(65, "Ssa", 1, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, F_1, "057555")
W(66, "Sa", 1, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, F_1, "056555")
W(67, "Sa1", 1, 0, 0, 0, 1, 0, -1, 0, 0, 0, 0, 0, F_1, "056554")
W(68, "Sta", 1, 0, 0, 0, 3, 0, -1, 0, 0, 0, 0, 0, F_1, "058554")
W(69, "Mm1", 1, 0, 0, 1, 0, 1, 0, 2, -2, 0, 0, 0, F_MF, "065655")
W(70, "Mf1", 1, 0, 0, 2, 0, -2, 0, 0, 0, 0, 0, 0, F_MM, "075355")
W(71, "A5", 1, 0, 0, 2, -2, 0, 0, 0, 0, 0, 0, 0, F_MM, "073555")
W(72, "M0", 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, F_MM, "055555")
W(73, "Mm2", 1, 0, 0, 1, 0, 0, 0, -1, -1, 0, 0, 0, F_141, "065555")
W(74, "Mf2", 1, 0, 0, 2, 0, -1, 0, -1, -1, 0, 0, 0, F_141, "075455")
