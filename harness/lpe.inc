// Spectral lines of the long period equilibrium tide (Cartwright-Tayler-Edden):
// s, h, p, N', p1, coefficient; 106 lines of order 2 followed by 17 of order 3.
L(0, 0, 0, 1, 0, 0.02793)
L(0, 0, 0, 2, 0, -0.00027)
L(0, 0, 2, 1, 0, 0.00004)
L(0, 1, 0, -1, -1, -0.00004)
L(0, 1, 0, 0, -1, -0.00492)
L(0, 1, 0, 0, 1, 0.00026)
L(0, 1, 0, 1, -1, 0.00005)
L(0, 2, -2, -1, 0, 0.00002)
L(0, 2, -2, 0, 0, -0.00031)
L(0, 2, 0, 0, 0, -0.03095)
L(0, 2, 0, 0, -2, -0.00008)
L(0, 2, 0, 1, 0, 0.00077)
L(0, 2, 0, 2, 0, 0.00017)
L(0, 3, 0, 0, -1, -0.00181)
L(0, 3, 0, 1, -1, 0.00003)
L(0, 4, 0, 0, -2, -0.00007)
L(1, -3, 1, -1, 1, 0.00002)
L(1, -3, 1, 0, 1, -0.00029)
L(1, -3, 1, 1, 1, 0.00002)
L(1, -2, -1, -2, 0, 0.00003)
L(1, -2, -1, -1, 0, 0.00007)
L(1, -2, 1, -1, 0, 0.00048)
L(1, -2, 1, 0, 0, -0.00673)
L(1, -2, 1, 1, 0, 0.00043)
L(1, -1, -1, -1, 1, 0.00002)
L(1, -1, -1, 0, 1, -0.00021)
L(1, -1, -1, 1, 1, 0.00000)
L(1, -1, 0, 0, 0, 0.00020)
L(1, -1, 1, 0, -1, 0.00005)
L(1, 0, -1, -2, 0, -0.00003)
L(1, 0, -1, -1, 0, 0.00231)
L(1, 0, -1, 0, 0, -0.03518)
L(1, 0, -1, 1, 0, 0.00228)
L(1, 0, 1, 0, 0, 0.00189)
L(1, 0, 1, 1, 0, 0.00077)
L(1, 0, 1, 2, 0, 0.00021)
L(1, 1, -1, 0, -1, 0.00018)
L(1, 2, -1, 0, 0, 0.00049)
L(1, 2, -1, 1, 0, 0.00024)
L(1, 2, -1, 2, 0, 0.00004)
L(1, 3, -1, 0, -1, 0.00003)
L(2, -4, 2, 0, 0, -0.00011)
L(2, -3, 0, 0, 1, -0.00038)
L(2, -3, 0, 1, 1, 0.00002)
L(2, -2, 0, -1, 0, -0.00042)
L(2, -2, 0, 0, 0, -0.00582)
L(2, -2, 0, 1, 0, 0.00037)
L(2, -2, 2, 0, 0, 0.00004)
L(2, -1, -2, 0, 1, -0.00004)
L(2, -1, -1, 0, 0, 0.00003)
L(2, -1, 0, 0, -1, 0.00007)
L(2, -1, 0, 0, 1, -0.00020)
L(2, -1, 0, 1, 1, -0.00004)
L(2, 0, -2, -1, 0, 0.00015)
L(2, 0, -2, 0, 0, -0.00288)
L(2, 0, -2, 1, 0, 0.00019)
L(2, 0, 0, 0, 0, -0.06662)
L(2, 0, 0, 1, 0, -0.02762)
L(2, 0, 0, 2, 0, -0.00258)
L(2, 0, 0, 3, 0, 0.00007)
L(2, 1, -2, 0, -1, 0.00003)
L(2, 1, 0, 0, -1, 0.00023)
L(2, 1, 0, 1, -1, 0.00006)
L(2, 2, -2, 0, 0, 0.00020)
L(2, 2, -2, 1, 0, 0.00008)
L(2, 2, 0, 2, 0, 0.00003)
L(3, -5, 1, 0, 1, -0.00002)
L(3, -4, 1, 0, 0, -0.00017)
L(3, -3, -1, 0, 1, -0.00007)
L(3, -3, 1, 0, 1, -0.00012)
L(3, -3, 1, 1, 1, -0.00004)
L(3, -2, -1, -1, 0, -0.00010)
L(3, -2, -1, 0, 0, -0.00091)
L(3, -2, -1, 1, 0, 0.00006)
L(3, -2, 1, 0, 0, -0.00242)
L(3, -2, 1, 1, 0, -0.00100)
L(3, -2, 1, 2, 0, -0.00009)
L(3, -1, -1, 0, 1, -0.00013)
L(3, -1, -1, 1, 1, -0.00004)
L(3, -1, 0, 0, 0, 0.00006)
L(3, -1, 0, 1, 0, 0.00003)
L(3, -1, 1, 0, -1, 0.00003)
L(3, 0, -3, 0, 0, -0.00023)
L(3, 0, -3, 1, -1, 0.00004)
L(3, 0, -3, 1, 1, 0.00004)
L(3, 0, -1, 0, 0, -0.01275)
L(3, 0, -1, 1, 0, -0.00528)
L(3, 0, -1, 2, 0, -0.00051)
L(3, 0, 1, 2, 0, 0.00005)
L(3, 0, 1, 3, 0, 0.00002)
L(3, 1, -1, 0, -1, 0.00011)
L(3, 1, -1, 1, -1, 0.00004)
L(4, -4, 0, 0, 0, -0.00008)
L(4, -4, 2, 0, 0, -0.00006)
L(4, -4, 2, 1, 0, -0.00002)
L(4, -3, 0, 0, 1, -0.00014)
L(4, -3, 0, 1, 1, -0.00006)
L(4, -2, -2, 0, 0, -0.00011)
L(4, -2, 0, 0, 0, -0.00205)
L(4, -2, 0, 1, 0, -0.00085)
L(4, -2, 0, 2, 0, -0.00008)
L(4, -1, -2, 0, 1, -0.00003)
L(4, -1, 0, 0, -1, 0.00003)
L(4, 0, -2, 0, 0, -0.00169)
L(4, 0, -2, 1, 0, -0.00070)
L(4, 0, -2, 2, 0, -0.00006)
L(0, 0, 1, 0, 0, -0.00021)
L(0, 2, -1, 0, 0, -0.00004)
L(1, -2, 0, 0, 0, 0.00004)
L(1, 0, 0, -1, 0, 0.00019)
L(1, 0, 0, 0, 0, -0.00375)
L(1, 0, 0, 1, 0, -0.00059)
L(1, 0, 0, 2, 0, 0.00005)
L(2, -2, 1, 0, 0, -0.00012)
L(2, 0, -1, 0, 0, -0.00061)
L(2, 0, -1, 1, 0, -0.00010)
L(3, -2, 0, 0, 0, -0.00010)
L(3, 0, -2, 0, 0, -0.00007)
L(3, 0, 0, 0, 0, -0.00030)
L(3, 0, 0, 1, 0, -0.00019)
L(3, 0, 0, 2, 0, -0.00004)
L(4, 0, -1, 0, 0, -0.00008)
L(4, 0, -1, 1, 0, -0.00005)
