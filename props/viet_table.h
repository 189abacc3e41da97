// generated: every precomposed Vietnamese vowel, from the Unicode decompositions of base letter x tone
static const struct { unsigned cp; char base; } VIET[] = {
	{ 0x00E0, 'a' },
	{ 0x1EA3, 'a' },
	{ 0x00E3, 'a' },
	{ 0x00E1, 'a' },
	{ 0x1EA1, 'a' },
	{ 0x0103, 'a' },
	{ 0x1EB1, 'a' },
	{ 0x1EB3, 'a' },
	{ 0x1EB5, 'a' },
	{ 0x1EAF, 'a' },
	{ 0x1EB7, 'a' },
	{ 0x00E2, 'a' },
	{ 0x1EA7, 'a' },
	{ 0x1EA9, 'a' },
	{ 0x1EAB, 'a' },
	{ 0x1EA5, 'a' },
	{ 0x1EAD, 'a' },
	{ 0x00E8, 'e' },
	{ 0x1EBB, 'e' },
	{ 0x1EBD, 'e' },
	{ 0x00E9, 'e' },
	{ 0x1EB9, 'e' },
	{ 0x00EA, 'e' },
	{ 0x1EC1, 'e' },
	{ 0x1EC3, 'e' },
	{ 0x1EC5, 'e' },
	{ 0x1EBF, 'e' },
	{ 0x1EC7, 'e' },
	{ 0x00EC, 'i' },
	{ 0x1EC9, 'i' },
	{ 0x0129, 'i' },
	{ 0x00ED, 'i' },
	{ 0x1ECB, 'i' },
	{ 0x00F2, 'o' },
	{ 0x1ECF, 'o' },
	{ 0x00F5, 'o' },
	{ 0x00F3, 'o' },
	{ 0x1ECD, 'o' },
	{ 0x00F4, 'o' },
	{ 0x1ED3, 'o' },
	{ 0x1ED5, 'o' },
	{ 0x1ED7, 'o' },
	{ 0x1ED1, 'o' },
	{ 0x1ED9, 'o' },
	{ 0x01A1, 'o' },
	{ 0x1EDD, 'o' },
	{ 0x1EDF, 'o' },
	{ 0x1EE1, 'o' },
	{ 0x1EDB, 'o' },
	{ 0x1EE3, 'o' },
	{ 0x00F9, 'u' },
	{ 0x1EE7, 'u' },
	{ 0x0169, 'u' },
	{ 0x00FA, 'u' },
	{ 0x1EE5, 'u' },
	{ 0x01B0, 'u' },
	{ 0x1EEB, 'u' },
	{ 0x1EED, 'u' },
	{ 0x1EEF, 'u' },
	{ 0x1EE9, 'u' },
	{ 0x1EF1, 'u' },
	{ 0x1EF3, 'y' },
	{ 0x1EF7, 'y' },
	{ 0x1EF9, 'y' },
	{ 0x00FD, 'y' },
	{ 0x1EF5, 'y' },
	{ 0x0111, 'd' },
	{ 0x00F0, 'd' },
	{ 0x00C0, 'A' },
	{ 0x1EA2, 'A' },
	{ 0x00C3, 'A' },
	{ 0x00C1, 'A' },
	{ 0x1EA0, 'A' },
	{ 0x0102, 'A' },
	{ 0x1EB0, 'A' },
	{ 0x1EB2, 'A' },
	{ 0x1EB4, 'A' },
	{ 0x1EAE, 'A' },
	{ 0x1EB6, 'A' },
	{ 0x00C2, 'A' },
	{ 0x1EA6, 'A' },
	{ 0x1EA8, 'A' },
	{ 0x1EAA, 'A' },
	{ 0x1EA4, 'A' },
	{ 0x1EAC, 'A' },
	{ 0x00C8, 'E' },
	{ 0x1EBA, 'E' },
	{ 0x1EBC, 'E' },
	{ 0x00C9, 'E' },
	{ 0x1EB8, 'E' },
	{ 0x00CA, 'E' },
	{ 0x1EC0, 'E' },
	{ 0x1EC2, 'E' },
	{ 0x1EC4, 'E' },
	{ 0x1EBE, 'E' },
	{ 0x1EC6, 'E' },
	{ 0x00CC, 'I' },
	{ 0x1EC8, 'I' },
	{ 0x0128, 'I' },
	{ 0x00CD, 'I' },
	{ 0x1ECA, 'I' },
	{ 0x00D2, 'O' },
	{ 0x1ECE, 'O' },
	{ 0x00D5, 'O' },
	{ 0x00D3, 'O' },
	{ 0x1ECC, 'O' },
	{ 0x00D4, 'O' },
	{ 0x1ED2, 'O' },
	{ 0x1ED4, 'O' },
	{ 0x1ED6, 'O' },
	{ 0x1ED0, 'O' },
	{ 0x1ED8, 'O' },
	{ 0x01A0, 'O' },
	{ 0x1EDC, 'O' },
	{ 0x1EDE, 'O' },
	{ 0x1EE0, 'O' },
	{ 0x1EDA, 'O' },
	{ 0x1EE2, 'O' },
	{ 0x00D9, 'U' },
	{ 0x1EE6, 'U' },
	{ 0x0168, 'U' },
	{ 0x00DA, 'U' },
	{ 0x1EE4, 'U' },
	{ 0x01AF, 'U' },
	{ 0x1EEA, 'U' },
	{ 0x1EEC, 'U' },
	{ 0x1EEE, 'U' },
	{ 0x1EE8, 'U' },
	{ 0x1EF0, 'U' },
	{ 0x1EF2, 'Y' },
	{ 0x1EF6, 'Y' },
	{ 0x1EF8, 'Y' },
	{ 0x00DD, 'Y' },
	{ 0x1EF4, 'Y' },
	{ 0x0110, 'D' },
	{ 0x00D0, 'D' },
};
enum { NVIET = 136 };
