// The 530 settings as tabulated at the pinned commit; validated against an independent list of operations when written.
#pragma once
#include "sym.hpp"
namespace sym {
inline const std::vector<Setting>& settings() { static const std::vector<Setting> s{
{1,1,"P 1","P 1","P1","P 1","",'P',1,"C1^1"},
{2,2,"-P 1","P -1","P-1","P -1","",'P',2,"Ci^1"},
{3,3,"P 2y","P 1 2 1","P2","P 2 = P 1 2 1","b",'P',3,"C2^1"},
{4,3,"P 2","P 1 1 2","P2","P 2 = P 1 1 2","c",'P',3,"C2^1"},
{5,3,"P 2x","P 2 1 1","P2","P 2 = P 2 1 1","a",'P',3,"C2^1"},
{6,4,"P 2yb","P 1 2_1 1","P2_1","P 2_1 = P 1 2_1 1","b",'P',3,"C2^2"},
{7,4,"P 2c","P 1 1 2_1","P2_1","P 2_1 = P 1 1 2_1","c",'P',3,"C2^2"},
{8,4,"P 2xa","P 2_1 1 1","P2_1","P 2_1 = P 2_1 1 1","a",'P',3,"C2^2"},
{9,5,"C 2y","C 1 2 1","C2","C 2 = C 1 2 1","b1",'C',3,"C2^3"},
{10,5,"A 2y","A 1 2 1","C2","C 2 = A 1 2 1","b2",'A',3,"C2^3"},
{11,5,"I 2y","I 1 2 1","C2","C 2 = I 1 2 1","b3",'I',3,"C2^3"},
{12,5,"A 2","A 1 1 2","C2","C 2 = A 1 1 2","c1",'A',3,"C2^3"},
{13,5,"B 2","B 1 1 2","C2","C 2 = B 1 1 2 = B 2","c2",'B',3,"C2^3"},
{14,5,"I 2","I 1 1 2","C2","C 2 = I 1 1 2","c3",'I',3,"C2^3"},
{15,5,"B 2x","B 2 1 1","C2","C 2 = B 2 1 1","a1",'B',3,"C2^3"},
{16,5,"C 2x","C 2 1 1","C2","C 2 = C 2 1 1","a2",'C',3,"C2^3"},
{17,5,"I 2x","I 2 1 1","C2","C 2 = I 2 1 1","a3",'I',3,"C2^3"},
{18,6,"P -2y","P 1 m 1","Pm","P m = P 1 m 1","b",'P',4,"Cs^1"},
{19,6,"P -2","P 1 1 m","Pm","P m = P 1 1 m","c",'P',4,"Cs^1"},
{20,6,"P -2x","P m 1 1","Pm","P m = P m 1 1","a",'P',4,"Cs^1"},
{21,7,"P -2yc","P 1 c 1","Pc","P c = P 1 c 1","b1",'P',4,"Cs^2"},
{22,7,"P -2yac","P 1 n 1","Pc","P c = P 1 n 1","b2",'P',4,"Cs^2"},
{23,7,"P -2ya","P 1 a 1","Pc","P c = P 1 a 1","b3",'P',4,"Cs^2"},
{24,7,"P -2a","P 1 1 a","Pc","P c = P 1 1 a","c1",'P',4,"Cs^2"},
{25,7,"P -2ab","P 1 1 n","Pc","P c = P 1 1 n","c2",'P',4,"Cs^2"},
{26,7,"P -2b","P 1 1 b","Pc","P c = P 1 1 b = P b","c3",'P',4,"Cs^2"},
{27,7,"P -2xb","P b 1 1","Pc","P c = P b 1 1","a1",'P',4,"Cs^2"},
{28,7,"P -2xbc","P n 1 1","Pc","P c = P n 1 1","a2",'P',4,"Cs^2"},
{29,7,"P -2xc","P c 1 1","Pc","P c = P c 1 1","a3",'P',4,"Cs^2"},
{30,8,"C -2y","C 1 m 1","Cm","C m = C 1 m 1","b1",'C',4,"Cs^3"},
{31,8,"A -2y","A 1 m 1","Cm","C m = A 1 m 1","b2",'A',4,"Cs^3"},
{32,8,"I -2y","I 1 m 1","Cm","C m = I 1 m 1","b3",'I',4,"Cs^3"},
{33,8,"A -2","A 1 1 m","Cm","C m = A 1 1 m","c1",'A',4,"Cs^3"},
{34,8,"B -2","B 1 1 m","Cm","C m = B 1 1 m = B m","c2",'B',4,"Cs^3"},
{35,8,"I -2","I 1 1 m","Cm","C m = I 1 1 m","c3",'I',4,"Cs^3"},
{36,8,"B -2x","B m 1 1","Cm","C m = B m 1 1","a1",'B',4,"Cs^3"},
{37,8,"C -2x","C m 1 1","Cm","C m = C m 1 1","a2",'C',4,"Cs^3"},
{38,8,"I -2x","I m 1 1","Cm","C m = I m 1 1","a3",'I',4,"Cs^3"},
{39,9,"C -2yc","C 1 c 1","Cc","C c = C 1 c 1","b1",'C',4,"Cs^4"},
{40,9,"A -2yac","A 1 n 1","Cc","C c = A 1 n 1","b2",'A',4,"Cs^4"},
{41,9,"I -2ya","I 1 a 1","Cc","C c = I 1 a 1","b3",'I',4,"Cs^4"},
{42,9,"A -2ya","A 1 a 1","Cc","C c = A 1 a 1","-b1",'A',4,"Cs^4"},
{43,9,"C -2ybc","C 1 n 1","Cc","C c = C 1 n 1","-b2",'C',4,"Cs^4"},
{44,9,"I -2yc","I 1 c 1","Cc","C c = I 1 c 1","-b3",'I',4,"Cs^4"},
{45,9,"A -2a","A 1 1 a","Cc","C c = A 1 1 a","c1",'A',4,"Cs^4"},
{46,9,"B -2bc","B 1 1 n","Cc","C c = B 1 1 n","c2",'B',4,"Cs^4"},
{47,9,"I -2b","I 1 1 b","Cc","C c = I 1 1 b","c3",'I',4,"Cs^4"},
{48,9,"B -2b","B 1 1 b","Cc","C c = B 1 1 b = B b","-c1",'B',4,"Cs^4"},
{49,9,"A -2ac","A 1 1 n","Cc","C c = A 1 1 n","-c2",'A',4,"Cs^4"},
{50,9,"I -2a","I 1 1 a","Cc","C c = I 1 1 a","-c3",'I',4,"Cs^4"},
{51,9,"B -2xb","B b 1 1","Cc","C c = B b 1 1","a1",'B',4,"Cs^4"},
{52,9,"C -2xbc","C n 1 1","Cc","C c = C n 1 1","a2",'C',4,"Cs^4"},
{53,9,"I -2xc","I c 1 1","Cc","C c = I c 1 1","a3",'I',4,"Cs^4"},
{54,9,"C -2xc","C c 1 1","Cc","C c = C c 1 1","-a1",'C',4,"Cs^4"},
{55,9,"B -2xbc","B n 1 1","Cc","C c = B n 1 1","-a2",'B',4,"Cs^4"},
{56,9,"I -2xb","I b 1 1","Cc","C c = I b 1 1","-a3",'I',4,"Cs^4"},
{57,10,"-P 2y","P 1 2/m 1","P2/m","P 2/m = P 1 2/m 1","b",'P',5,"C2h^1"},
{58,10,"-P 2","P 1 1 2/m","P2/m","P 2/m = P 1 1 2/m","c",'P',5,"C2h^1"},
{59,10,"-P 2x","P 2/m 1 1","P2/m","P 2/m = P 2/m 1 1","a",'P',5,"C2h^1"},
{60,11,"-P 2yb","P 1 2_1/m 1","P2_1/m","P 2_1/m = P 1 2_1/m 1","b",'P',5,"C2h^2"},
{61,11,"-P 2c","P 1 1 2_1/m","P2_1/m","P 2_1/m = P 1 1 2_1/m","c",'P',5,"C2h^2"},
{62,11,"-P 2xa","P 2_1/m 1 1","P2_1/m","P 2_1/m = P 2_1/m 1 1","a",'P',5,"C2h^2"},
{63,12,"-C 2y","C 1 2/m 1","C2/m","C 2/m = C 1 2/m 1","b1",'C',5,"C2h^3"},
{64,12,"-A 2y","A 1 2/m 1","C2/m","C 2/m = A 1 2/m 1","b2",'A',5,"C2h^3"},
{65,12,"-I 2y","I 1 2/m 1","C2/m","C 2/m = I 1 2/m 1","b3",'I',5,"C2h^3"},
{66,12,"-A 2","A 1 1 2/m","C2/m","C 2/m = A 1 1 2/m","c1",'A',5,"C2h^3"},
{67,12,"-B 2","B 1 1 2/m","C2/m","C 2/m = B 1 1 2/m = B 2/m","c2",'B',5,"C2h^3"},
{68,12,"-I 2","I 1 1 2/m","C2/m","C 2/m = I 1 1 2/m","c3",'I',5,"C2h^3"},
{69,12,"-B 2x","B 2/m 1 1","C2/m","C 2/m = B 2/m 1 1","a1",'B',5,"C2h^3"},
{70,12,"-C 2x","C 2/m 1 1","C2/m","C 2/m = C 2/m 1 1","a2",'C',5,"C2h^3"},
{71,12,"-I 2x","I 2/m 1 1","C2/m","C 2/m = I 2/m 1 1","a3",'I',5,"C2h^3"},
{72,13,"-P 2yc","P 1 2/c 1","P2/c","P 2/c = P 1 2/c 1","b1",'P',5,"C2h^4"},
{73,13,"-P 2yac","P 1 2/n 1","P2/c","P 2/c = P 1 2/n 1","b2",'P',5,"C2h^4"},
{74,13,"-P 2ya","P 1 2/a 1","P2/c","P 2/c = P 1 2/a 1","b3",'P',5,"C2h^4"},
{75,13,"-P 2a","P 1 1 2/a","P2/c","P 2/c = P 1 1 2/a","c1",'P',5,"C2h^4"},
{76,13,"-P 2ab","P 1 1 2/n","P2/c","P 2/c = P 1 1 2/n","c2",'P',5,"C2h^4"},
{77,13,"-P 2b","P 1 1 2/b","P2/c","P 2/c = P 1 1 2/b = P 2/b","c3",'P',5,"C2h^4"},
{78,13,"-P 2xb","P 2/b 1 1","P2/c","P 2/c = P 2/b 1 1","a1",'P',5,"C2h^4"},
{79,13,"-P 2xbc","P 2/n 1 1","P2/c","P 2/c = P 2/n 1 1","a2",'P',5,"C2h^4"},
{80,13,"-P 2xc","P 2/c 1 1","P2/c","P 2/c = P 2/c 1 1","a3",'P',5,"C2h^4"},
{81,14,"-P 2ybc","P 1 2_1/c 1","P2_1/c","P 2_1/c = P 1 2_1/c 1","b1",'P',5,"C2h^5"},
{82,14,"-P 2yn","P 1 2_1/n 1","P2_1/c","P 2_1/c = P 1 2_1/n 1","b2",'P',5,"C2h^5"},
{83,14,"-P 2yab","P 1 2_1/a 1","P2_1/c","P 2_1/c = P 1 2_1/a 1","b3",'P',5,"C2h^5"},
{84,14,"-P 2ac","P 1 1 2_1/a","P2_1/c","P 2_1/c = P 1 1 2_1/a","c1",'P',5,"C2h^5"},
{85,14,"-P 2n","P 1 1 2_1/n","P2_1/c","P 2_1/c = P 1 1 2_1/n","c2",'P',5,"C2h^5"},
{86,14,"-P 2bc","P 1 1 2_1/b","P2_1/c","P 2_1/c = P 1 1 2_1/b = P 2_1/b","c3",'P',5,"C2h^5"},
{87,14,"-P 2xab","P 2_1/b 1 1","P2_1/c","P 2_1/c = P 2_1/b 1 1","a1",'P',5,"C2h^5"},
{88,14,"-P 2xn","P 2_1/n 1 1","P2_1/c","P 2_1/c = P 2_1/n 1 1","a2",'P',5,"C2h^5"},
{89,14,"-P 2xac","P 2_1/c 1 1","P2_1/c","P 2_1/c = P 2_1/c 1 1","a3",'P',5,"C2h^5"},
{90,15,"-C 2yc","C 1 2/c 1","C2/c","C 2/c = C 1 2/c 1","b1",'C',5,"C2h^6"},
{91,15,"-A 2yac","A 1 2/n 1","C2/c","C 2/c = A 1 2/n 1","b2",'A',5,"C2h^6"},
{92,15,"-I 2ya","I 1 2/a 1","C2/c","C 2/c = I 1 2/a 1","b3",'I',5,"C2h^6"},
{93,15,"-A 2ya","A 1 2/a 1","C2/c","C 2/c = A 1 2/a 1","-b1",'A',5,"C2h^6"},
{94,15,"-C 2ybc","C 1 2/n 1","C2/c","C 2/c = C 1 2/n 1","-b2",'C',5,"C2h^6"},
{95,15,"-I 2yc","I 1 2/c 1","C2/c","C 2/c = I 1 2/c 1","-b3",'I',5,"C2h^6"},
{96,15,"-A 2a","A 1 1 2/a","C2/c","C 2/c = A 1 1 2/a","c1",'A',5,"C2h^6"},
{97,15,"-B 2bc","B 1 1 2/n","C2/c","C 2/c = B 1 1 2/n","c2",'B',5,"C2h^6"},
{98,15,"-I 2b","I 1 1 2/b","C2/c","C 2/c = I 1 1 2/b","c3",'I',5,"C2h^6"},
{99,15,"-B 2b","B 1 1 2/b","C2/c","C 2/c = B 1 1 2/b = B 2/b","-c1",'B',5,"C2h^6"},
{100,15,"-A 2ac","A 1 1 2/n","C2/c","C 2/c = A 1 1 2/n","-c2",'A',5,"C2h^6"},
{101,15,"-I 2a","I 1 1 2/a","C2/c","C 2/c = I 1 1 2/a","-c3",'I',5,"C2h^6"},
{102,15,"-B 2xb","B 2/b 1 1","C2/c","C 2/c = B 2/b 1 1","a1",'B',5,"C2h^6"},
{103,15,"-C 2xbc","C 2/n 1 1","C2/c","C 2/c = C 2/n 1 1","a2",'C',5,"C2h^6"},
{104,15,"-I 2xc","I 2/c 1 1","C2/c","C 2/c = I 2/c 1 1","a3",'I',5,"C2h^6"},
{105,15,"-C 2xc","C 2/c 1 1","C2/c","C 2/c = C 2/c 1 1","-a1",'C',5,"C2h^6"},
{106,15,"-B 2xbc","B 2/n 1 1","C2/c","C 2/c = B 2/n 1 1","-a2",'B',5,"C2h^6"},
{107,15,"-I 2xb","I 2/b 1 1","C2/c","C 2/c = I 2/b 1 1","-a3",'I',5,"C2h^6"},
{108,16,"P 2 2","P 2 2 2","P222","P 2 2 2","",'P',6,"D2^1"},
{109,17,"P 2c 2","P 2 2 2_1","P222_1","P 2 2 2_1","",'P',6,"D2^2"},
{110,17,"P 2a 2a","P 2_1 2 2","P2_122","P 2_1 2 2","cab",'P',6,"D2^2"},
{111,17,"P 2 2b","P 2 2_1 2","P22_12","P 2 2_1 2","bca",'P',6,"D2^2"},
{112,18,"P 2 2ab","P 2_1 2_1 2","P2_12_12","P 2_1 2_1 2","",'P',6,"D2^3"},
{113,18,"P 2bc 2","P 2 2_1 2_1","P22_12_1","P 2 2_1 2_1","cab",'P',6,"D2^3"},
{114,18,"P 2ac 2ac","P 2_1 2 2_1","P2_122_1","P 2_1 2 2_1","bca",'P',6,"D2^3"},
{115,19,"P 2ac 2ab","P 2_1 2_1 2_1","P2_12_12_1","P 2_1 2_1 2_1","",'P',6,"D2^4"},
{116,20,"C 2c 2","C 2 2 2_1","C222_1","C 2 2 2_1","",'C',6,"D2^5"},
{117,20,"A 2a 2a","A 2_1 2 2","A2_122","A 2_1 2 2","cab",'A',6,"D2^5"},
{118,20,"B 2 2b","B 2 2_1 2","B22_12","B 2 2_1 2","bca",'B',6,"D2^5"},
{119,21,"C 2 2","C 2 2 2","C222","C 2 2 2","",'C',6,"D2^6"},
{120,21,"A 2 2","A 2 2 2","A222","A 2 2 2","cab",'A',6,"D2^6"},
{121,21,"B 2 2","B 2 2 2","B222","B 2 2 2","bca",'B',6,"D2^6"},
{122,22,"F 2 2","F 2 2 2","F222","F 2 2 2","",'F',6,"D2^7"},
{123,23,"I 2 2","I 2 2 2","I222","I 2 2 2","",'I',6,"D2^8"},
{124,24,"I 2b 2c","I 2_1 2_1 2_1","I2_12_12_1","I 2_1 2_1 2_1","",'I',6,"D2^9"},
{125,25,"P 2 -2","P m m 2","Pmm2","P m m 2","",'P',7,"C2v^1"},
{126,25,"P -2 2","P 2 m m","P2mm","P 2 m m","cab",'P',7,"C2v^1"},
{127,25,"P -2 -2","P m 2 m","Pm2m","P m 2 m","bca",'P',7,"C2v^1"},
{128,26,"P 2c -2","P m c 2_1","Pmc2_1","P m c 2_1","",'P',7,"C2v^2"},
{129,26,"P 2c -2c","P c m 2_1","Pcm2_1","P c m 2_1","ba-c",'P',7,"C2v^2"},
{130,26,"P -2a 2a","P 2_1 m a","P2_1ma","P 2_1 m a","cab",'P',7,"C2v^2"},
{131,26,"P -2 2a","P 2_1 a m","P2_1am","P 2_1 a m","-cba",'P',7,"C2v^2"},
{132,26,"P -2 -2b","P b 2_1 m","Pb2_1m","P b 2_1 m","bca",'P',7,"C2v^2"},
{133,26,"P -2b -2","P m 2_1 b","Pm2_1b","P m 2_1 b","a-cb",'P',7,"C2v^2"},
{134,27,"P 2 -2c","P c c 2","Pcc2","P c c 2","",'P',7,"C2v^3"},
{135,27,"P -2a 2","P 2 a a","P2aa","P 2 a a","cab",'P',7,"C2v^3"},
{136,27,"P -2b -2b","P b 2 b","Pb2b","P b 2 b","bca",'P',7,"C2v^3"},
{137,28,"P 2 -2a","P m a 2","Pma2","P m a 2","",'P',7,"C2v^4"},
{138,28,"P 2 -2b","P b m 2","Pbm2","P b m 2","ba-c",'P',7,"C2v^4"},
{139,28,"P -2b 2","P 2 m b","P2mb","P 2 m b","cab",'P',7,"C2v^4"},
{140,28,"P -2c 2","P 2 c m","P2cm","P 2 c m","-cba",'P',7,"C2v^4"},
{141,28,"P -2c -2c","P c 2 m","Pc2m","P c 2 m","bca",'P',7,"C2v^4"},
{142,28,"P -2a -2a","P m 2 a","Pm2a","P m 2 a","a-cb",'P',7,"C2v^4"},
{143,29,"P 2c -2ac","P c a 2_1","Pca2_1","P c a 2_1","",'P',7,"C2v^5"},
{144,29,"P 2c -2b","P b c 2_1","Pbc2_1","P b c 2_1","ba-c",'P',7,"C2v^5"},
{145,29,"P -2b 2a","P 2_1 a b","P2_1ab","P 2_1 a b","cab",'P',7,"C2v^5"},
{146,29,"P -2ac 2a","P 2_1 c a","P2_1ca","P 2_1 c a","-cba",'P',7,"C2v^5"},
{147,29,"P -2bc -2c","P c 2_1 b","Pc2_1b","P c 2_1 b","bca",'P',7,"C2v^5"},
{148,29,"P -2a -2ab","P b 2_1 a","Pb2_1a","P b 2_1 a","a-cb",'P',7,"C2v^5"},
{149,30,"P 2 -2bc","P n c 2","Pnc2","P n c 2","",'P',7,"C2v^6"},
{150,30,"P 2 -2ac","P c n 2","Pcn2","P c n 2","ba-c",'P',7,"C2v^6"},
{151,30,"P -2ac 2","P 2 n a","P2na","P 2 n a","cab",'P',7,"C2v^6"},
{152,30,"P -2ab 2","P 2 a n","P2an","P 2 a n","-cba",'P',7,"C2v^6"},
{153,30,"P -2ab -2ab","P b 2 n","Pb2n","P b 2 n","bca",'P',7,"C2v^6"},
{154,30,"P -2bc -2bc","P n 2 b","Pn2b","P n 2 b","a-cb",'P',7,"C2v^6"},
{155,31,"P 2ac -2","P m n 2_1","Pmn2_1","P m n 2_1","",'P',7,"C2v^7"},
{156,31,"P 2bc -2bc","P n m 2_1","Pnm2_1","P n m 2_1","ba-c",'P',7,"C2v^7"},
{157,31,"P -2ab 2ab","P 2_1 m n","P2_1mn","P 2_1 m n","cab",'P',7,"C2v^7"},
{158,31,"P -2 2ac","P 2_1 n m","P2_1nm","P 2_1 n m","-cba",'P',7,"C2v^7"},
{159,31,"P -2 -2bc","P n 2_1 m","Pn2_1m","P n 2_1 m","bca",'P',7,"C2v^7"},
{160,31,"P -2ab -2","P m 2_1 n","Pm2_1n","P m 2_1 n","a-cb",'P',7,"C2v^7"},
{161,32,"P 2 -2ab","P b a 2","Pba2","P b a 2","",'P',7,"C2v^8"},
{162,32,"P -2bc 2","P 2 c b","P2cb","P 2 c b","cab",'P',7,"C2v^8"},
{163,32,"P -2ac -2ac","P c 2 a","Pc2a","P c 2 a","bca",'P',7,"C2v^8"},
{164,33,"P 2c -2n","P n a 2_1","Pna2_1","P n a 2_1","",'P',7,"C2v^9"},
{165,33,"P 2c -2ab","P b n 2_1","Pbn2_1","P b n 2_1","ba-c",'P',7,"C2v^9"},
{166,33,"P -2bc 2a","P 2_1 n b","P2_1nb","P 2_1 n b","cab",'P',7,"C2v^9"},
{167,33,"P -2n 2a","P 2_1 c n","P2_1cn","P 2_1 c n","-cba",'P',7,"C2v^9"},
{168,33,"P -2n -2ac","P c 2_1 n","Pc2_1n","P c 2_1 n","bca",'P',7,"C2v^9"},
{169,33,"P -2ac -2n","P n 2_1 a","Pn2_1a","P n 2_1 a","a-cb",'P',7,"C2v^9"},
{170,34,"P 2 -2n","P n n 2","Pnn2","P n n 2","",'P',7,"C2v^10"},
{171,34,"P -2n 2","P 2 n n","P2nn","P 2 n n","cab",'P',7,"C2v^10"},
{172,34,"P -2n -2n","P n 2 n","Pn2n","P n 2 n","bca",'P',7,"C2v^10"},
{173,35,"C 2 -2","C m m 2","Cmm2","C m m 2","",'C',7,"C2v^11"},
{174,35,"A -2 2","A 2 m m","A2mm","A 2 m m","cab",'A',7,"C2v^11"},
{175,35,"B -2 -2","B m 2 m","Bm2m","B m 2 m","bca",'B',7,"C2v^11"},
{176,36,"C 2c -2","C m c 2_1","Cmc2_1","C m c 2_1","",'C',7,"C2v^12"},
{177,36,"C 2c -2c","C c m 2_1","Ccm2_1","C c m 2_1","ba-c",'C',7,"C2v^12"},
{178,36,"A -2a 2a","A 2_1 m a","A2_1ma","A 2_1 m a","cab",'A',7,"C2v^12"},
{179,36,"A -2 2a","A 2_1 a m","A2_1am","A 2_1 a m","-cba",'A',7,"C2v^12"},
{180,36,"B -2 -2b","B b 2_1 m","Bb2_1m","B b 2_1 m","bca",'B',7,"C2v^12"},
{181,36,"B -2b -2","B m 2_1 b","Bm2_1b","B m 2_1 b","a-cb",'B',7,"C2v^12"},
{182,37,"C 2 -2c","C c c 2","Ccc2","C c c 2","",'C',7,"C2v^13"},
{183,37,"A -2a 2","A 2 a a","A2aa","A 2 a a","cab",'A',7,"C2v^13"},
{184,37,"B -2b -2b","B b 2 b","Bb2b","B b 2 b","bca",'B',7,"C2v^13"},
{185,38,"A 2 -2","A m m 2","Amm2","A m m 2","",'A',7,"C2v^14"},
{186,38,"B 2 -2","B m m 2","Bmm2","B m m 2","ba-c",'B',7,"C2v^14"},
{187,38,"B -2 2","B 2 m m","B2mm","B 2 m m","cab",'B',7,"C2v^14"},
{188,38,"C -2 2","C 2 m m","C2mm","C 2 m m","-cba",'C',7,"C2v^14"},
{189,38,"C -2 -2","C m 2 m","Cm2m","C m 2 m","bca",'C',7,"C2v^14"},
{190,38,"A -2 -2","A m 2 m","Am2m","A m 2 m","a-cb",'A',7,"C2v^14"},
{191,39,"A 2 -2c","A e m 2","Aem2","A e m 2","",'A',7,"C2v^15"},
{192,39,"B 2 -2c","B m e 2","Bme2","B m e 2","ba-c",'B',7,"C2v^15"},
{193,39,"B -2c 2","B 2 e m","B2em","B 2 e m","cab",'B',7,"C2v^15"},
{194,39,"C -2b 2","C 2 m e","C2me","C 2 m e","-cba",'C',7,"C2v^15"},
{195,39,"C -2b -2b","C m 2 e","Cm2e","C m 2 e","bca",'C',7,"C2v^15"},
{196,39,"A -2c -2c","A e 2 m","Ae2m","A e 2 m","a-cb",'A',7,"C2v^15"},
{197,40,"A 2 -2a","A m a 2","Ama2","A m a 2","",'A',7,"C2v^16"},
{198,40,"B 2 -2b","B b m 2","Bbm2","B b m 2","ba-c",'B',7,"C2v^16"},
{199,40,"B -2b 2","B 2 m b","B2mb","B 2 m b","cab",'B',7,"C2v^16"},
{200,40,"C -2c 2","C 2 c m","C2cm","C 2 c m","-cba",'C',7,"C2v^16"},
{201,40,"C -2c -2c","C c 2 m","Cc2m","C c 2 m","bca",'C',7,"C2v^16"},
{202,40,"A -2a -2a","A m 2 a","Am2a","A m 2 a","a-cb",'A',7,"C2v^16"},
{203,41,"A 2 -2ac","A e a 2","Aea2","A e a 2","",'A',7,"C2v^17"},
{204,41,"B 2 -2bc","B b e 2","Bbe2","B b e 2","ba-c",'B',7,"C2v^17"},
{205,41,"B -2bc 2","B 2 e b","B2eb","B 2 e b","cab",'B',7,"C2v^17"},
{206,41,"C -2bc 2","C 2 c e","C2ce","C 2 c e","-cba",'C',7,"C2v^17"},
{207,41,"C -2bc -2bc","C c 2 e","Cc2e","C c 2 e","bca",'C',7,"C2v^17"},
{208,41,"A -2ac -2ac","A e 2 a","Ae2a","A e 2 a","a-cb",'A',7,"C2v^17"},
{209,42,"F 2 -2","F m m 2","Fmm2","F m m 2","",'F',7,"C2v^18"},
{210,42,"F -2 2","F 2 m m","F2mm","F 2 m m","cab",'F',7,"C2v^18"},
{211,42,"F -2 -2","F m 2 m","Fm2m","F m 2 m","bca",'F',7,"C2v^18"},
{212,43,"F 2 -2d","F d d 2","Fdd2","F d d 2","",'F',7,"C2v^19"},
{213,43,"F -2d 2","F 2 d d","F2dd","F 2 d d","cab",'F',7,"C2v^19"},
{214,43,"F -2d -2d","F d 2 d","Fd2d","F d 2 d","bca",'F',7,"C2v^19"},
{215,44,"I 2 -2","I m m 2","Imm2","I m m 2","",'I',7,"C2v^20"},
{216,44,"I -2 2","I 2 m m","I2mm","I 2 m m","cab",'I',7,"C2v^20"},
{217,44,"I -2 -2","I m 2 m","Im2m","I m 2 m","bca",'I',7,"C2v^20"},
{218,45,"I 2 -2c","I b a 2","Iba2","I b a 2","",'I',7,"C2v^21"},
{219,45,"I -2a 2","I 2 c b","I2cb","I 2 c b","cab",'I',7,"C2v^21"},
{220,45,"I -2b -2b","I c 2 a","Ic2a","I c 2 a","bca",'I',7,"C2v^21"},
{221,46,"I 2 -2a","I m a 2","Ima2","I m a 2","",'I',7,"C2v^22"},
{222,46,"I 2 -2b","I b m 2","Ibm2","I b m 2","ba-c",'I',7,"C2v^22"},
{223,46,"I -2b 2","I 2 m b","I2mb","I 2 m b","cab",'I',7,"C2v^22"},
{224,46,"I -2c 2","I 2 c m","I2cm","I 2 c m","-cba",'I',7,"C2v^22"},
{225,46,"I -2c -2c","I c 2 m","Ic2m","I c 2 m","bca",'I',7,"C2v^22"},
{226,46,"I -2a -2a","I m 2 a","Im2a","I m 2 a","a-cb",'I',7,"C2v^22"},
{227,47,"-P 2 2","P 2/m 2/m 2/m","Pmmm","P m m m","",'P',8,"D2h^1"},
{228,48,"P 2 2 -1n","P 2/n 2/n 2/n","Pnnn","P n n n","1",'P',8,"D2h^2"},
{229,48,"-P 2ab 2bc","P 2/n 2/n 2/n","Pnnn","P n n n","2",'P',8,"D2h^2"},
{230,49,"-P 2 2c","P 2/c 2/c 2/m","Pccm","P c c m","",'P',8,"D2h^3"},
{231,49,"-P 2a 2","P 2/m 2/a 2/a","Pmaa","P m a a","cab",'P',8,"D2h^3"},
{232,49,"-P 2b 2b","P 2/b 2/m 2/b","Pbmb","P b m b","bca",'P',8,"D2h^3"},
{233,50,"P 2 2 -1ab","P 2/b 2/a 2/n","Pban","P b a n","1",'P',8,"D2h^4"},
{234,50,"-P 2ab 2b","P 2/b 2/a 2/n","Pban","P b a n","2",'P',8,"D2h^4"},
{235,50,"P 2 2 -1bc","P 2/n 2/c 2/b","Pncb","P n c b","1cab",'P',8,"D2h^4"},
{236,50,"-P 2b 2bc","P 2/n 2/c 2/b","Pncb","P n c b","2cab",'P',8,"D2h^4"},
{237,50,"P 2 2 -1ac","P 2/c 2/n 2/a","Pcna","P c n a","1bca",'P',8,"D2h^4"},
{238,50,"-P 2a 2c","P 2/c 2/n 2/a","Pcna","P c n a","2bca",'P',8,"D2h^4"},
{239,51,"-P 2a 2a","P 2_1/m 2/m 2/a","Pmma","P m m a","",'P',8,"D2h^5"},
{240,51,"-P 2b 2","P 2/m 2_1/m 2/b","Pmmb","P m m b","ba-c",'P',8,"D2h^5"},
{241,51,"-P 2 2b","P 2/b 2_1/m 2/m","Pbmm","P b m m","cab",'P',8,"D2h^5"},
{242,51,"-P 2c 2c","P 2/c 2/m 2_1/m","Pcmm","P c m m","-cba",'P',8,"D2h^5"},
{243,51,"-P 2c 2","P 2/m 2/c 2_1/m","Pmcm","P m c m","bca",'P',8,"D2h^5"},
{244,51,"-P 2 2a","P 2_1/m 2/a 2/m","Pmam","P m a m","a-cb",'P',8,"D2h^5"},
{245,52,"-P 2a 2bc","P 2/n 2_1/n 2/a","Pnna","P n n a","",'P',8,"D2h^6"},
{246,52,"-P 2b 2n","P 2_1/n 2/n 2/b","Pnnb","P n n b","ba-c",'P',8,"D2h^6"},
{247,52,"-P 2n 2b","P 2/b 2/n 2_1/n","Pbnn","P b n n","cab",'P',8,"D2h^6"},
{248,52,"-P 2ab 2c","P 2/c 2_1/n 2/n","Pcnn","P c n n","-cba",'P',8,"D2h^6"},
{249,52,"-P 2ab 2n","P 2_1/n 2/c 2/n","Pncn","P n c n","bca",'P',8,"D2h^6"},
{250,52,"-P 2n 2bc","P 2/n 2/a 2_1/n","Pnan","P n a n","a-cb",'P',8,"D2h^6"},
{251,53,"-P 2ac 2","P 2/m 2/n 2_1/a","Pmna","P m n a","",'P',8,"D2h^7"},
{252,53,"-P 2bc 2bc","P 2/n 2/m 2_1/b","Pnmb","P n m b","ba-c",'P',8,"D2h^7"},
{253,53,"-P 2ab 2ab","P 2_1/b 2/m 2/n","Pbmn","P b m n","cab",'P',8,"D2h^7"},
{254,53,"-P 2 2ac","P 2_1/c 2/n 2/m","Pcnm","P c n m","-cba",'P',8,"D2h^7"},
{255,53,"-P 2 2bc","P 2/n 2_1/c 2/m","Pncm","P n c m","bca",'P',8,"D2h^7"},
{256,53,"-P 2ab 2","P 2/m 2_1/a 2/n","Pman","P m a n","a-cb",'P',8,"D2h^7"},
{257,54,"-P 2a 2ac","P 2_1/c 2/c 2/a","Pcca","P c c a","",'P',8,"D2h^8"},
{258,54,"-P 2b 2c","P 2/c 2_1/c 2/b","Pccb","P c c b","ba-c",'P',8,"D2h^8"},
{259,54,"-P 2a 2b","P 2/b 2_1/a 2/a","Pbaa","P b a a","cab",'P',8,"D2h^8"},
{260,54,"-P 2ac 2c","P 2/c 2/a 2_1/a","Pcaa","P c a a","-cba",'P',8,"D2h^8"},
{261,54,"-P 2bc 2b","P 2/b 2/c 2_1/b","Pbcb","P b c b","bca",'P',8,"D2h^8"},
{262,54,"-P 2b 2ab","P 2_1/b 2/a 2/b","Pbab","P b a b","a-cb",'P',8,"D2h^8"},
{263,55,"-P 2 2ab","P 2_1/b 2_1/a 2/m","Pbam","P b a m","",'P',8,"D2h^9"},
{264,55,"-P 2bc 2","P 2/m 2_1/c 2_1/b","Pmcb","P m c b","cab",'P',8,"D2h^9"},
{265,55,"-P 2ac 2ac","P 2_1/c 2/m 2_1/a","Pcma","P c m a","bca",'P',8,"D2h^9"},
{266,56,"-P 2ab 2ac","P 2_1/c 2_1/c 2/n","Pccn","P c c n","",'P',8,"D2h^10"},
{267,56,"-P 2ac 2bc","P 2/n 2_1/a 2_1/a","Pnaa","P n a a","cab",'P',8,"D2h^10"},
{268,56,"-P 2bc 2ab","P 2_1/b 2/n 2_1/b","Pbnb","P b n b","bca",'P',8,"D2h^10"},
{269,57,"-P 2c 2b","P 2/b 2_1/c 2_1/m","Pbcm","P b c m","",'P',8,"D2h^11"},
{270,57,"-P 2c 2ac","P 2_1/c 2/a 2_1/m","Pcam","P c a m","ba-c",'P',8,"D2h^11"},
{271,57,"-P 2ac 2a","P 2_1/m 2/c 2_1/a","Pmca","P m c a","cab",'P',8,"D2h^11"},
{272,57,"-P 2b 2a","P 2_1/m 2_1/a 2/b","Pmab","P m a b","-cba",'P',8,"D2h^11"},
{273,57,"-P 2a 2ab","P 2_1/b 2_1/m 2/a","Pbma","P b m a","bca",'P',8,"D2h^11"},
{274,57,"-P 2bc 2c","P 2/c 2_1/m 2_1/b","Pcmb","P c m b","a-cb",'P',8,"D2h^11"},
{275,58,"-P 2 2n","P 2_1/n 2_1/n 2/m","Pnnm","P n n m","",'P',8,"D2h^12"},
{276,58,"-P 2n 2","P 2/m 2_1/n 2_1/n","Pmnn","P m n n","cab",'P',8,"D2h^12"},
{277,58,"-P 2n 2n","P 2_1/n 2/m 2_1/n","Pnmn","P n m n","bca",'P',8,"D2h^12"},
{278,59,"P 2 2ab -1ab","P 2_1/m 2_1/m 2/n","Pmmn","P m m n","1",'P',8,"D2h^13"},
{279,59,"-P 2ab 2a","P 2_1/m 2_1/m 2/n","Pmmn","P m m n","2",'P',8,"D2h^13"},
{280,59,"P 2bc 2 -1bc","P 2/n 2_1/m 2_1/m","Pnmm","P n m m","1cab",'P',8,"D2h^13"},
{281,59,"-P 2c 2bc","P 2/n 2_1/m 2_1/m","Pnmm","P n m m","2cab",'P',8,"D2h^13"},
{282,59,"P 2ac 2ac -1ac","P 2_1/m 2/n 2_1/m","Pmnm","P m n m","1bca",'P',8,"D2h^13"},
{283,59,"-P 2c 2a","P 2_1/m 2/n 2_1/m","Pmnm","P m n m","2bca",'P',8,"D2h^13"},
{284,60,"-P 2n 2ab","P 2_1/b 2/c 2_1/n","Pbcn","P b c n","",'P',8,"D2h^14"},
{285,60,"-P 2n 2c","P 2/c 2_1/a 2_1/n","Pcan","P c a n","ba-c",'P',8,"D2h^14"},
{286,60,"-P 2a 2n","P 2_1/n 2_1/c 2/a","Pnca","P n c a","cab",'P',8,"D2h^14"},
{287,60,"-P 2bc 2n","P 2_1/n 2/a 2_1/b","Pnab","P n a b","-cba",'P',8,"D2h^14"},
{288,60,"-P 2ac 2b","P 2/b 2_1/n 2_1/a","Pbna","P b n a","bca",'P',8,"D2h^14"},
{289,60,"-P 2b 2ac","P 2_1/c 2_1/n 2/b","Pcnb","P c n b","a-cb",'P',8,"D2h^14"},
{290,61,"-P 2ac 2ab","P 2_1/b 2_1/c 2_1/a","Pbca","P b c a","",'P',8,"D2h^15"},
{291,61,"-P 2bc 2ac","P 2_1/c 2_1/a 2_1/b","Pcab","P c a b","ba-c",'P',8,"D2h^15"},
{292,62,"-P 2ac 2n","P 2_1/n 2_1/m 2_1/a","Pnma","P n m a","",'P',8,"D2h^16"},
{293,62,"-P 2bc 2a","P 2_1/m 2_1/n 2_1/b","Pmnb","P m n b","ba-c",'P',8,"D2h^16"},
{294,62,"-P 2c 2ab","P 2_1/b 2_1/n 2_1/m","Pbnm","P b n m","cab",'P',8,"D2h^16"},
{295,62,"-P 2n 2ac","P 2_1/c 2_1/m 2_1/n","Pcmn","P c m n","-cba",'P',8,"D2h^16"},
{296,62,"-P 2n 2a","P 2_1/m 2_1/c 2_1/n","Pmcn","P m c n","bca",'P',8,"D2h^16"},
{297,62,"-P 2c 2n","P 2_1/n 2_1/a 2_1/m","Pnam","P n a m","a-cb",'P',8,"D2h^16"},
{298,63,"-C 2c 2","C 2/m 2/c 2_1/m","Cmcm","C m c m","",'C',8,"D2h^17"},
{299,63,"-C 2c 2c","C 2/c 2/m 2_1/m","Ccmm","C c m m","ba-c",'C',8,"D2h^17"},
{300,63,"-A 2a 2a","A 2_1/m 2/m 2/a","Amma","A m m a","cab",'A',8,"D2h^17"},
{301,63,"-A 2 2a","A 2_1/m 2/a 2/m","Amam","A m a m","-cba",'A',8,"D2h^17"},
{302,63,"-B 2 2b","B 2/b 2_1/m 2/m","Bbmm","B b m m","bca",'B',8,"D2h^17"},
{303,63,"-B 2b 2","B 2/m 2_1/m 2/b","Bmmb","B m m b","a-cb",'B',8,"D2h^17"},
{304,64,"-C 2bc 2","C 2/m 2/c 2_1/e","Cmce","C m c e","",'C',8,"D2h^18"},
{305,64,"-C 2bc 2bc","C 2/c 2/m 2_1/e","Ccme","C c m e","ba-c",'C',8,"D2h^18"},
{306,64,"-A 2ac 2ac","A 2_1/e 2/m 2/a","Aema","A e m a","cab",'A',8,"D2h^18"},
{307,64,"-A 2 2ac","A 2_1/e 2/a 2/m","Aeam","A e a m","-cba",'A',8,"D2h^18"},
{308,64,"-B 2 2bc","B 2/b 2_1/e 2/m","Bbem","B b e m","bca",'B',8,"D2h^18"},
{309,64,"-B 2bc 2","B 2/m 2_1/e 2/b","Bmeb","B m e b","a-cb",'B',8,"D2h^18"},
{310,65,"-C 2 2","C 2/m 2/m 2/m","Cmmm","C m m m","",'C',8,"D2h^19"},
{311,65,"-A 2 2","A 2/m 2/m 2/m","Ammm","A m m m","cab",'A',8,"D2h^19"},
{312,65,"-B 2 2","B 2/m 2/m 2/m","Bmmm","B m m m","bca",'B',8,"D2h^19"},
{313,66,"-C 2 2c","C 2/c 2/c 2/m","Cccm","C c c m","",'C',8,"D2h^20"},
{314,66,"-A 2a 2","A 2/m 2/a 2/a","Amaa","A m a a","cab",'A',8,"D2h^20"},
{315,66,"-B 2b 2b","B 2/b 2/m 2/b","Bbmb","B b m b","bca",'B',8,"D2h^20"},
{316,67,"-C 2b 2","C 2/m 2/m 2/e","Cmme","C m m e","",'C',8,"D2h^21"},
{317,67,"-C 2b 2b","C 2/m 2/m 2/e","Cmme","C m m e","ba-c",'C',8,"D2h^21"},
{318,67,"-A 2c 2c","A 2/e 2/m 2/m","Aemm","A e m m","cab",'A',8,"D2h^21"},
{319,67,"-A 2 2c","A 2/e 2/m 2/m","Aemm","A e m m","-cba",'A',8,"D2h^21"},
{320,67,"-B 2 2c","B 2/m 2/e 2/m","Bmem","B m e m","bca",'B',8,"D2h^21"},
{321,67,"-B 2c 2","B 2/m 2/e 2/m","Bmem","B m e m","a-cb",'B',8,"D2h^21"},
{322,68,"C 2 2 -1bc","C 2/c 2/c 2/e","Ccce","C c c e","1",'C',8,"D2h^22"},
{323,68,"-C 2b 2bc","C 2/c 2/c 2/e","Ccce","C c c e","2",'C',8,"D2h^22"},
{324,68,"C 2 2 -1bc","C 2/c 2/c 2/e","Ccce","C c c e","1ba-c",'C',8,"D2h^22"},
{325,68,"-C 2b 2c","C 2/c 2/c 2/e","Ccce","C c c e","2ba-c",'C',8,"D2h^22"},
{326,68,"A 2 2 -1ac","A 2/e 2/a 2/a","Aeaa","A e a a","1cab",'A',8,"D2h^22"},
{327,68,"-A 2a 2c","A 2/e 2/a 2/a","Aeaa","A e a a","2cab",'A',8,"D2h^22"},
{328,68,"A 2 2 -1ac","A 2/e 2/a 2/a","Aeaa","A e a a","1-cba",'A',8,"D2h^22"},
{329,68,"-A 2ac 2c","A 2/e 2/a 2/a","Aeaa","A e a a","2-cba",'A',8,"D2h^22"},
{330,68,"B 2 2 -1bc","B 2/b 2/e 2/b","Bbeb","B b e b","1bca",'B',8,"D2h^22"},
{331,68,"-B 2bc 2b","B 2/b 2/e 2/b","Bbcb","B b c b","2bca",'B',8,"D2h^22"},
{332,68,"B 2 2 -1bc","B 2/b 2/e 2/b","Bbeb","B b e b","1a-cb",'B',8,"D2h^22"},
{333,68,"-B 2b 2bc","B 2/b 2/e 2/b","Bbeb","B b e b","2a-cb",'B',8,"D2h^22"},
{334,69,"-F 2 2","F 2/m 2/m 2/m","Fmmm","F m m m","",'F',8,"D2h^23"},
{335,70,"F 2 2 -1d","F 2/d 2/d 2/d","Fddd","F d d d","1",'F',8,"D2h^24"},
{336,70,"-F 2uv 2vw","F 2/d 2/d 2/d","Fddd","F d d d","2",'F',8,"D2h^24"},
{337,71,"-I 2 2","I 2/m 2/m 2/m","Immm","I m m m","",'I',8,"D2h^25"},
{338,72,"-I 2 2c","I 2/b 2/a 2/m","Ibam","I b a m","",'I',8,"D2h^26"},
{339,72,"-I 2a 2","I 2/m 2/c 2/b","Imcb","I m c b","cab",'I',8,"D2h^26"},
{340,72,"-I 2b 2b","I 2/c 2/m 2/a","Icma","I c m a","bca",'I',8,"D2h^26"},
{341,73,"-I 2b 2c","I 2/b 2/c 2/a","Ibca","I b c a","",'I',8,"D2h^27"},
{342,73,"-I 2a 2b","I 2/c 2/a 2/b","Icab","I c a b","ba-c",'I',8,"D2h^27"},
{343,74,"-I 2b 2","I 2/m 2/m 2/a","Imma","I m m a","",'I',8,"D2h^28"},
{344,74,"-I 2a 2a","I 2/m 2/m 2/b","Immb","I m m b","ba-c",'I',8,"D2h^28"},
{345,74,"-I 2c 2c","I 2/b 2/m 2/m","Ibmm","I b m m","cab",'I',8,"D2h^28"},
{346,74,"-I 2 2b","I 2/c 2/m 2/m","Icmm","I c m m","-cba",'I',8,"D2h^28"},
{347,74,"-I 2 2a","I 2/m 2/c 2/m","Imcm","I m c m","bca",'I',8,"D2h^28"},
{348,74,"-I 2c 2","I 2/m 2/a 2/m","Imam","I m a m","a-cb",'I',8,"D2h^28"},
{349,75,"P 4","P 4","P4","P 4","",'P',9,"C4^1"},
{350,76,"P 4w","P 4_1","P4_1","P 4_1","",'P',9,"C4^2"},
{351,77,"P 4c","P 4_2","P4_2","P 4_2","",'P',9,"C4^3"},
{352,78,"P 4cw","P 4_3","P4_3","P 4_3","",'P',9,"C4^4"},
{353,79,"I 4","I 4","I4","I 4","",'I',9,"C4^5"},
{354,80,"I 4bw","I 4_1","I4_1","I 4_1","",'I',9,"C4^6"},
{355,81,"P -4","P -4","P-4","P -4","",'P',10,"S4^1"},
{356,82,"I -4","I -4","I-4","I -4","",'I',10,"S4^2"},
{357,83,"-P 4","P 4/m","P4/m","P 4/m","",'P',11,"C4h^1"},
{358,84,"-P 4c","P 4_2/m","P4_2/m","P 4_2/m","",'P',11,"C4h^2"},
{359,85,"P 4ab -1ab","P 4/n","P4/n","P 4/n","1",'P',11,"C4h^3"},
{360,85,"-P 4a","P 4/n","P4/n","P 4/n","2",'P',11,"C4h^3"},
{361,86,"P 4n -1n","P 4_2/n","P4_2/n","P 4_2/n","1",'P',11,"C4h^4"},
{362,86,"-P 4bc","P 4_2/n","P4_2/n","P 4_2/n","2",'P',11,"C4h^4"},
{363,87,"-I 4","I 4/m","I4/m","I 4/m","",'I',11,"C4h^5"},
{364,88,"I 4bw -1bw","I 4_1/a","I4_1/a","I 4_1/a","1",'I',11,"C4h^6"},
{365,88,"-I 4ad","I 4_1/a","I4_1/a","I 4_1/a","2",'I',11,"C4h^6"},
{366,89,"P 4 2","P 4 2 2","P422","P 4 2 2","",'P',12,"D4^1"},
{367,90,"P 4ab 2ab","P 4 2_1 2","P42_12","P 4 2_1 2","",'P',12,"D4^2"},
{368,91,"P 4w 2c","P 4_1 2 2","P4_122","P 4_1 2 2","",'P',12,"D4^3"},
{369,92,"P 4abw 2nw","P 4_1 2_1 2","P4_12_12","P 4_1 2_1 2","",'P',12,"D4^4"},
{370,93,"P 4c 2","P 4_2 2 2","P4_222","P 4_2 2 2","",'P',12,"D4^5"},
{371,94,"P 4n 2n","P 4_2 2_1 2","P4_22_12","P 4_2 2_1 2","",'P',12,"D4^6"},
{372,95,"P 4cw 2c","P 4_3 2 2","P4_322","P 4_3 2 2","",'P',12,"D4^7"},
{373,96,"P 4nw 2abw","P 4_3 2_1 2","P4_32_12","P 4_3 2_1 2","",'P',12,"D4^8"},
{374,97,"I 4 2","I 4 2 2","I422","I 4 2 2","",'I',12,"D4^9"},
{375,98,"I 4bw 2bw","I 4_1 2 2","I4_122","I 4_1 2 2","",'I',12,"D4^10"},
{376,99,"P 4 -2","P 4 m m","P4mm","P 4 m m","",'P',13,"C4v^1"},
{377,100,"P 4 -2ab","P 4 b m","P4bm","P 4 b m","",'P',13,"C4v^2"},
{378,101,"P 4c -2c","P 4_2 c m","P4_2cm","P 4_2 c m","",'P',13,"C4v^3"},
{379,102,"P 4n -2n","P 4_2 n m","P4_2nm","P 4_2 n m","",'P',13,"C4v^4"},
{380,103,"P 4 -2c","P 4 c c","P4cc","P 4 c c","",'P',13,"C4v^5"},
{381,104,"P 4 -2n","P 4 n c","P4nc","P 4 n c","",'P',13,"C4v^6"},
{382,105,"P 4c -2","P 4_2 m c","P4_2mc","P 4_2 m c","",'P',13,"C4v^7"},
{383,106,"P 4c -2ab","P 4_2 b c","P4_2bc","P 4_2 b c","",'P',13,"C4v^8"},
{384,107,"I 4 -2","I 4 m m","I4mm","I 4 m m","",'I',13,"C4v^9"},
{385,108,"I 4 -2c","I 4 c m","I4cm","I 4 c m","",'I',13,"C4v^10"},
{386,109,"I 4bw -2","I 4_1 m d","I4_1md","I 4_1 m d","",'I',13,"C4v^11"},
{387,110,"I 4bw -2c","I 4_1 c d","I4_1cd","I 4_1 c d","",'I',13,"C4v^12"},
{388,111,"P -4 2","P -4 2 m","P-42m","P -4 2 m","",'P',14,"D2d^1"},
{389,112,"P -4 2c","P -4 2 c","P-42c","P -4 2 c","",'P',14,"D2d^2"},
{390,113,"P -4 2ab","P -4 2_1 m","P-42_1m","P -4 2_1 m","",'P',14,"D2d^3"},
{391,114,"P -4 2n","P -4 2_1 c","P-42_1c","P -4 2_1 c","",'P',14,"D2d^4"},
{392,115,"P -4 -2","P -4 m 2","P-4m2","P -4 m 2","",'P',14,"D2d^5"},
{393,116,"P -4 -2c","P -4 c 2","P-4c2","P -4 c 2","",'P',14,"D2d^6"},
{394,117,"P -4 -2ab","P -4 b 2","P-4b2","P -4 b 2","",'P',14,"D2d^7"},
{395,118,"P -4 -2n","P -4 n 2","P-4n2","P -4 n 2","",'P',14,"D2d^8"},
{396,119,"I -4 -2","I -4 m 2","I-4m2","I -4 m 2","",'I',14,"D2d^9"},
{397,120,"I -4 -2c","I -4 c 2","I-4c2","I -4 c 2","",'I',14,"D2d^10"},
{398,121,"I -4 2","I -4 2 m","I-42m","I -4 2 m","",'I',14,"D2d^11"},
{399,122,"I -4 2bw","I -4 2 d","I-42d","I -4 2 d","",'I',14,"D2d^12"},
{400,123,"-P 4 2","P 4/m 2/m 2/m","P4/mmm","P 4/m m m","",'P',15,"D4h^1"},
{401,124,"-P 4 2c","P 4/m 2/c 2/c","P4/mcc","P 4/m c c","",'P',15,"D4h^2"},
{402,125,"P 4 2 -1ab","P 4/n 2/b 2/m","P4/nbm","P 4/n b m","1",'P',15,"D4h^3"},
{403,125,"-P 4a 2b","P 4/n 2/b 2/m","P4/nbm","P 4/n b m","2",'P',15,"D4h^3"},
{404,126,"P 4 2 -1n","P 4/n 2/n 2/c","P4/nnc","P 4/n n c","1",'P',15,"D4h^4"},
{405,126,"-P 4a 2bc","P 4/n 2/n 2/c","P4/nnc","P 4/n n c","2",'P',15,"D4h^4"},
{406,127,"-P 4 2ab","P 4/m 2_1/b m","P4/mbm","P 4/m b m","",'P',15,"D4h^5"},
{407,128,"-P 4 2n","P 4/m 2_1/n c","P4/mnc","P 4/m n c","",'P',15,"D4h^6"},
{408,129,"P 4ab 2ab -1ab","P 4/n 2_1/m m","P4/nmm","P 4/n m m","1",'P',15,"D4h^7"},
{409,129,"-P 4a 2a","P 4/n 2_1/m m","P4/nmm","P 4/n m m","2",'P',15,"D4h^7"},
{410,130,"P 4ab 2n -1ab","P 4/n 2_1/c c","P4/ncc","P 4/n c c","1",'P',15,"D4h^8"},
{411,130,"-P 4a 2ac","P 4/n 2_1/c c","P4/ncc","P 4/n c c","2",'P',15,"D4h^8"},
{412,131,"-P 4c 2","P 4_2/m 2/m 2/c","P4_2/mmc","P 4_2/m m c","",'P',15,"D4h^9"},
{413,132,"-P 4c 2c","P 4_2/m 2/c 2/m","P4_2/mcm","P 4_2/m c m","",'P',15,"D4h^10"},
{414,133,"P 4n 2c -1n","P 4_2/n 2/b 2/c","P4_2/nbc","P 4_2/n b c","1",'P',15,"D4h^11"},
{415,133,"-P 4ac 2b","P 4_2/n 2/b 2/c","P4_2/nbc","P 4_2/n b c","2",'P',15,"D4h^11"},
{416,134,"P 4n 2 -1n","P 4_2/n 2/n 2/m","P4_2/nnm","P 4_2/n n m","1",'P',15,"D4h^12"},
{417,134,"-P 4ac 2bc","P 4_2/n 2/n 2/m","P4_2/nnm","P 4_2/n n m","2",'P',15,"D4h^12"},
{418,135,"-P 4c 2ab","P 4_2/m 2_1/b 2/c","P4_2/mbc","P 4_2/m b c","",'P',15,"D4h^13"},
{419,136,"-P 4n 2n","P 4_2/m 2_1/n 2/m","P4_2/mnm","P 4_2/m n m","",'P',15,"D4h^14"},
{420,137,"P 4n 2n -1n","P 4_2/n 2_1/m 2/c","P4_2/nmc","P 4_2/n m c","1",'P',15,"D4h^15"},
{421,137,"-P 4ac 2a","P 4_2/n 2_1/m 2/c","P4_2/nmc","P 4_2/n m c","2",'P',15,"D4h^15"},
{422,138,"P 4n 2ab -1n","P 4_2/n 2_1/c 2/m","P4_2/ncm","P 4_2/n c m","1",'P',15,"D4h^16"},
{423,138,"-P 4ac 2ac","P 4_2/n 2_1/c 2/m","P4_2/ncm","P 4_2/n c m","2",'P',15,"D4h^16"},
{424,139,"-I 4 2","I 4/m 2/m 2/m","I4/mmm","I 4/m m m","",'I',15,"D4h^17"},
{425,140,"-I 4 2c","I 4/m 2/c 2/m","I4/mcm","I 4/m c m","",'I',15,"D4h^18"},
{426,141,"I 4bw 2bw -1bw","I 4_1/a 2/m 2/d","I4_1/amd","I 4_1/a m d","1",'I',15,"D4h^19"},
{427,141,"-I 4bd 2","I 4_1/a 2/m 2/d","I4_1/amd","I 4_1/a m d","2",'I',15,"D4h^19"},
{428,142,"I 4bw 2aw -1bw","I 4_1/a 2/c 2/d","I4_1/acd","I 4_1/a c d","1",'I',15,"D4h^20"},
{429,142,"-I 4bd 2c","I 4_1/a 2/c 2/d","I4_1/acd","I 4_1/a c d","2",'I',15,"D4h^20"},
{430,143,"P 3","P 3","P3","P 3","",'P',16,"C3^1"},
{431,144,"P 31","P 3_1","P3_1","P 3_1","",'P',16,"C3^2"},
{432,145,"P 32","P 3_2","P3_2","P 3_2","",'P',16,"C3^3"},
{433,146,"R 3","R 3","R3","R 3","H",'R',16,"C3^4"},
{434,146,"P 3*","R 3","R3","R 3","R",'P',16,"C3^4"},
{435,147,"-P 3","P -3","P-3","P -3","",'P',17,"C3i^1"},
{436,148,"-R 3","R -3","R-3","R -3","H",'R',17,"C3i^2"},
{437,148,"-P 3*","R -3","R-3","R -3","R",'P',17,"C3i^2"},
{438,149,"P 3 2","P 3 1 2","P312","P 3 1 2","",'P',18,"D3^1"},
{439,150,"P 3 2\"","P 3 2 1","P321","P 3 2 1","",'P',18,"D3^2"},
{440,151,"P 31 2c (0 0 1)","P 3_1 1 2","P3_112","P 3_1 1 2","",'P',18,"D3^3"},
{441,152,"P 31 2\"","P 3_1 2 1","P3_121","P 3_1 2 1","",'P',18,"D3^4"},
{442,153,"P 32 2c (0 0 -1)","P 3_2 1 2","P3_212","P 3_2 1 2","",'P',18,"D3^5"},
{443,154,"P 32 2\"","P 3_2 2 1","P3_221","P 3_2 2 1","",'P',18,"D3^6"},
{444,155,"R 3 2\"","R 3 2","R32","R 3 2","H",'R',18,"D3^7"},
{445,155,"P 3* 2","R 3 2","R32","R 3 2","R",'P',18,"D3^7"},
{446,156,"P 3 -2\"","P 3 m 1","P3m1","P 3 m 1","",'P',19,"C3v^1"},
{447,157,"P 3 -2","P 3 1 m","P31m","P 3 1 m","",'P',19,"C3v^2"},
{448,158,"P 3 -2\"c","P 3 c 1","P3c1","P 3 c 1","",'P',19,"C3v^3"},
{449,159,"P 3 -2c","P 3 1 c","P31c","P 3 1 c","",'P',19,"C3v^4"},
{450,160,"R 3 -2\"","R 3 m","R3m","R 3 m","H",'R',19,"C3v^5"},
{451,160,"P 3* -2","R 3 m","R3m","R 3 m","R",'P',19,"C3v^5"},
{452,161,"R 3 -2\"c","R 3 c","R3c","R 3 c","H",'R',19,"C3v^6"},
{453,161,"P 3* -2n","R 3 c","R3c","R 3 c","R",'P',19,"C3v^6"},
{454,162,"-P 3 2","P -3 1 2/m","P-31m","P -3 1 m","",'P',20,"D3d^1"},
{455,163,"-P 3 2c","P -3 1 2/c","P-31c","P -3 1 c","",'P',20,"D3d^2"},
{456,164,"-P 3 2\"","P -3 2/m 1","P-3m1","P -3 m 1","",'P',20,"D3d^3"},
{457,165,"-P 3 2\"c","P -3 2/c 1","P-3c1","P -3 c 1","",'P',20,"D3d^4"},
{458,166,"-R 3 2\"","R -3 2/m","R-3m","R -3 m","H",'R',20,"D3d^5"},
{459,166,"-P 3* 2","R -3 2/m","R-3m","R -3 m","R",'P',20,"D3d^5"},
{460,167,"-R 3 2\"c","R -3 2/c","R-3c","R -3 c","H",'R',20,"D3d^6"},
{461,167,"-P 3* 2n","R -3 2/c","R-3c","R -3 c","R",'P',20,"D3d^6"},
{462,168,"P 6","P 6","P6","P 6","",'P',21,"C6^1"},
{463,169,"P 61","P 6_1","P6_1","P 6_1","",'P',21,"C6^2"},
{464,170,"P 65","P 6_5","P6_5","P 6_5","",'P',21,"C6^3"},
{465,171,"P 62","P 6_2","P6_2","P 6_2","",'P',21,"C6^4"},
{466,172,"P 64","P 6_4","P6_4","P 6_4","",'P',21,"C6^5"},
{467,173,"P 6c","P 6_3","P6_3","P 6_3","",'P',21,"C6^6"},
{468,174,"P -6","P -6","P-6","P -6","",'P',22,"C3h^1"},
{469,175,"-P 6","P 6/m","P6/m","P 6/m","",'P',23,"C6h^1"},
{470,176,"-P 6c","P 6_3/m","P6_3/m","P 6_3/m","",'P',23,"C6h^2"},
{471,177,"P 6 2","P 6 2 2","P622","P 6 2 2","",'P',24,"D6^1"},
{472,178,"P 61 2 (0 0 -1)","P 6_1 2 2","P6_122","P 6_1 2 2","",'P',24,"D6^2"},
{473,179,"P 65 2 (0 0 1)","P 6_5 2 2","P6_522","P 6_5 2 2","",'P',24,"D6^3"},
{474,180,"P 62 2c (0 0 1)","P 6_2 2 2","P6_222","P 6_2 2 2","",'P',24,"D6^4"},
{475,181,"P 64 2c (0 0 -1)","P 6_4 2 2","P6_422","P 6_4 2 2","",'P',24,"D6^5"},
{476,182,"P 6c 2c","P 6_3 2 2","P6_322","P 6_3 2 2","",'P',24,"D6^6"},
{477,183,"P 6 -2","P 6 m m","P6mm","P 6 m m","",'P',25,"C6v^1"},
{478,184,"P 6 -2c","P 6 c c","P6cc","P 6 c c","",'P',25,"C6v^2"},
{479,185,"P 6c -2","P 6_3 c m","P6_3cm","P 6_3 c m","",'P',25,"C6v^3"},
{480,186,"P 6c -2c","P 6_3 m c","P6_3mc","P 6_3 m c","",'P',25,"C6v^4"},
{481,187,"P -6 2","P -6 m 2","P-6m2","P -6 m 2","",'P',26,"D3h^1"},
{482,188,"P -6c 2","P -6 c 2","P-6c2","P -6 c 2","",'P',26,"D3h^2"},
{483,189,"P -6 -2","P -6 2 m","P-62m","P -6 2 m","",'P',26,"D3h^3"},
{484,190,"P -6c -2c","P -6 2 c","P-62c","P -6 2 c","",'P',26,"D3h^4"},
{485,191,"-P 6 2","P 6/m 2/m 2/m","P6/mmm","P 6/m m m","",'P',27,"D6h^1"},
{486,192,"-P 6 2c","P 6/m 2/c 2/c","P6/mcc","P 6/m c c","",'P',27,"D6h^2"},
{487,193,"-P 6c 2","P 6_3/m 2/c 2/m","P6_3/mcm","P 6_3/m c m","",'P',27,"D6h^3"},
{488,194,"-P 6c 2c","P 6_3/m 2/m 2/c","P6_3/mmc","P 6_3/m m c","",'P',27,"D6h^4"},
{489,195,"P 2 2 3","P 2 3","P23","P 2 3","",'P',28,"T^1"},
{490,196,"F 2 2 3","F 2 3","F23","F 2 3","",'F',28,"T^2"},
{491,197,"I 2 2 3","I 2 3","I23","I 2 3","",'I',28,"T^3"},
{492,198,"P 2ac 2ab 3","P 2_1 3","P2_13","P 2_1 3","",'P',28,"T^4"},
{493,199,"I 2b 2c 3","I 2_1 3","I2_13","I 2_1 3","",'I',28,"T^5"},
{494,200,"-P 2 2 3","P 2/m -3","Pm-3","P m -3","",'P',29,"Th^1"},
{495,201,"P 2 2 3 -1n","P 2/n -3","Pn-3","P n -3","1",'P',29,"Th^2"},
{496,201,"-P 2ab 2bc 3","P 2/n -3","Pn-3","P n -3","2",'P',29,"Th^2"},
{497,202,"-F 2 2 3","F 2/m -3","Fm-3","F m -3","",'F',29,"Th^3"},
{498,203,"F 2 2 3 -1d","F 2/d -3","Fd-3","F d -3","1",'F',29,"Th^4"},
{499,203,"-F 2uv 2vw 3","F 2/d -3","Fd-3","F d -3","2",'F',29,"Th^4"},
{500,204,"-I 2 2 3","I 2/m -3","Im-3","I m -3","",'I',29,"Th^5"},
{501,205,"-P 2ac 2ab 3","P 2_1/a -3","Pa-3","P a -3","",'P',29,"Th^6"},
{502,206,"-I 2b 2c 3","I 2_1/a -3","Ia-3","I a -3","",'I',29,"Th^7"},
{503,207,"P 4 2 3","P 4 3 2","P432","P 4 3 2","",'P',30,"O^1"},
{504,208,"P 4n 2 3","P 4_2 3 2","P4_232","P 4_2 3 2","",'P',30,"O^2"},
{505,209,"F 4 2 3","F 4 3 2","F432","F 4 3 2","",'F',30,"O^3"},
{506,210,"F 4d 2 3","F 4_1 3 2","F4_132","F 4_1 3 2","",'F',30,"O^4"},
{507,211,"I 4 2 3","I 4 3 2","I432","I 4 3 2","",'I',30,"O^5"},
{508,212,"P 4acd 2ab 3","P 4_3 3 2","P4_332","P 4_3 3 2","",'P',30,"O^6"},
{509,213,"P 4bd 2ab 3","P 4_1 3 2","P4_132","P 4_1 3 2","",'P',30,"O^7"},
{510,214,"I 4bd 2c 3","I 4_1 3 2","I4_132","I 4_1 3 2","",'I',30,"O^8"},
{511,215,"P -4 2 3","P -4 3 m","P-43m","P -4 3 m","",'P',31,"Td^1"},
{512,216,"F -4 2 3","F -4 3 m","F-43m","F -4 3 m","",'F',31,"Td^2"},
{513,217,"I -4 2 3","I -4 3 m","I-43m","I -4 3 m","",'I',31,"Td^3"},
{514,218,"P -4n 2 3","P -4 3 n","P-43n","P -4 3 n","",'P',31,"Td^4"},
{515,219,"F -4c 2 3","F -4 3 c","F-43c","F -4 3 c","",'F',31,"Td^5"},
{516,220,"I -4bd 2c 3","I -4 3 d","I-43d","I -4 3 d","",'I',31,"Td^6"},
{517,221,"-P 4 2 3","P 4/m -3 2/m","Pm-3m","P m -3 m","",'P',32,"Oh^1"},
{518,222,"P 4 2 3 -1n","P 4/n -3 2/n","Pn-3n","P n -3 n","1",'P',32,"Oh^2"},
{519,222,"-P 4a 2bc 3","P 4/n -3 2/n","Pn-3n","P n -3 n","2",'P',32,"Oh^2"},
{520,223,"-P 4n 2 3","P 4_2/m -3 2/n","Pm-3n","P m -3 n","",'P',32,"Oh^3"},
{521,224,"P 4n 2 3 -1n","P 4_2/n -3 2/m","Pn-3m","P n -3 m","1",'P',32,"Oh^4"},
{522,224,"-P 4bc 2bc 3","P 4_2/n -3 2/m","Pn-3m","P n -3 m","2",'P',32,"Oh^4"},
{523,225,"-F 4 2 3","F 4/m -3 2/m","Fm-3m","F m -3 m","",'F',32,"Oh^5"},
{524,226,"-F 4c 2 3","F 4/m -3 2/c","Fm-3c","F m -3 c","",'F',32,"Oh^6"},
{525,227,"F 4d 2 3 -1d","F 4_1/d -3 2/m","Fd-3m","F d -3 m","1",'F',32,"Oh^7"},
{526,227,"-F 4vw 2vw 3","F 4_1/d -3 2/m","Fd-3m","F d -3 m","2",'F',32,"Oh^7"},
{527,228,"F 4d 2 3 -1cd","F 4_1/d -3 2/c","Fd-3c","F d -3 c","1",'F',32,"Oh^8"},
{528,228,"-F 4cvw 2vw 3","F 4_1/d -3 2/c","Fd-3c","F d -3 c","2",'F',32,"Oh^8"},
{529,229,"-I 4 2 3","I 4/m -3 2/m","Im-3m","I m -3 m","",'I',32,"Oh^9"},
{530,230,"-I 4bd 2c 3","I 4_1/a -3 2/d","Ia-3d","I a -3 d","",'I',32,"Oh^10"},
}; return s; }
}
