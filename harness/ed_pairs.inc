static const uint8_t ed_pairs[32][2][32] = {
 {{47,213,247,117,16,109,98,104,92,135,48,163,106,170,5,24,93,144,92,163,216,119,164,255,180,90,111,195,54,158,147,212,},
  {40,213,247,117,16,109,98,104,92,135,48,163,106,170,5,24,93,144,92,163,216,119,164,255,180,90,111,195,54,158,147,212,}},
 {{82,91,175,248,42,186,240,163,112,3,124,157,12,91,49,211,239,25,210,27,77,110,65,188,163,80,161,101,122,233,58,159,},
  {82,81,175,248,42,186,240,163,112,3,124,157,12,91,49,211,239,25,210,27,77,110,65,188,163,80,161,101,122,233,58,159,}},
 {{221,12,29,199,56,41,133,3,195,251,30,62,10,55,148,120,225,205,232,135,189,94,87,14,223,66,88,164,212,10,91,170,},
  {221,12,19,199,56,41,133,3,195,251,30,62,10,55,148,120,225,205,232,135,189,94,87,14,223,66,88,164,212,10,91,170,}},
 {{40,35,211,193,56,62,74,150,208,182,116,45,200,73,203,209,167,80,250,106,96,211,128,175,99,78,7,178,118,220,20,211,},
  {40,35,211,194,56,62,74,150,208,182,116,45,200,73,203,209,167,80,250,106,96,211,128,175,99,78,7,178,118,220,20,211,}},
 {{0,169,160,153,80,104,72,80,53,244,224,25,62,72,131,214,78,174,56,245,190,93,90,203,214,145,251,71,255,128,2,165,},
  {0,169,160,153,118,104,72,80,53,244,224,25,62,72,131,214,78,174,56,245,190,93,90,203,214,145,251,71,255,128,2,165,}},
 {{128,13,177,128,66,220,43,9,97,254,135,51,10,164,124,128,62,177,109,223,119,87,143,108,52,146,139,183,213,123,187,82,},
  {128,13,177,128,66,213,43,9,97,254,135,51,10,164,124,128,62,177,109,223,119,87,143,108,52,146,139,183,213,123,187,82,}},
 {{162,183,245,205,154,187,170,182,25,146,215,191,217,193,241,103,33,120,194,135,218,146,25,13,166,9,174,213,236,150,198,149,},
  {162,183,245,205,154,187,173,182,25,146,215,191,217,193,241,103,33,120,194,135,218,146,25,13,166,9,174,213,236,150,198,149,}},
 {{155,115,173,209,41,200,94,42,217,96,18,32,209,52,144,199,33,121,119,5,54,63,106,159,147,105,211,111,47,12,170,154,},
  {155,115,173,209,41,200,94,57,217,96,18,32,209,52,144,199,33,121,119,5,54,63,106,159,147,105,211,111,47,12,170,154,}},
 {{131,193,175,80,209,158,221,44,43,166,70,245,183,84,196,223,127,77,236,10,179,49,157,26,130,108,91,192,167,104,9,112,},
  {131,193,175,80,209,158,221,44,57,166,70,245,183,84,196,223,127,77,236,10,179,49,157,26,130,108,91,192,167,104,9,112,}},
 {{209,100,36,184,220,31,204,42,74,27,20,116,236,61,192,205,72,24,229,90,55,82,103,253,145,187,153,119,213,201,135,54,},
  {209,100,36,184,220,31,204,42,74,24,20,116,236,61,192,205,72,24,229,90,55,82,103,253,145,187,153,119,213,201,135,54,}},
 {{197,114,69,72,170,2,79,79,132,220,194,50,35,32,226,169,141,90,91,37,11,41,25,88,196,43,94,75,204,236,137,163,},
  {197,114,69,72,170,2,79,79,132,220,196,50,35,32,226,169,141,90,91,37,11,41,25,88,196,43,94,75,204,236,137,163,}},
 {{77,162,234,175,247,225,64,91,216,198,206,41,128,155,221,160,88,95,201,144,18,6,8,45,183,0,27,94,209,35,208,248,},
  {77,162,234,175,247,225,64,91,216,198,206,45,128,155,221,160,88,95,201,144,18,6,8,45,183,0,27,94,209,35,208,248,}},
 {{157,110,91,230,82,235,94,130,81,42,211,13,149,222,12,238,227,177,161,98,208,117,140,157,185,109,238,161,80,186,30,228,},
  {157,110,91,230,82,235,94,130,81,42,211,13,139,222,12,238,227,177,161,98,208,117,140,157,185,109,238,161,80,186,30,228,}},
 {{241,152,145,202,206,126,187,59,243,121,108,234,169,85,150,253,216,228,67,218,253,162,77,164,148,4,37,43,182,241,49,197,},
  {241,152,145,202,206,126,187,59,243,121,108,234,169,88,150,253,216,228,67,218,253,162,77,164,148,4,37,43,182,241,49,197,}},
 {{4,45,185,228,169,13,113,134,0,189,139,183,196,105,224,173,216,84,26,103,173,243,189,7,39,19,124,116,188,158,22,104,},
  {4,45,185,228,169,13,113,134,0,189,139,183,196,105,234,173,216,84,26,103,173,243,189,7,39,19,124,116,188,158,22,104,}},
 {{151,123,180,6,215,202,192,169,92,183,57,113,77,204,141,21,151,127,111,162,212,216,3,185,234,65,228,34,166,208,150,69,},
  {151,123,180,6,215,202,192,169,92,183,57,113,77,204,141,15,151,127,111,162,212,216,3,185,234,65,228,34,166,208,150,69,}},
 {{61,111,100,14,130,211,196,73,230,8,187,27,16,176,245,121,97,145,202,129,148,97,114,249,254,108,80,76,173,139,30,145,},
  {61,111,100,14,130,211,196,73,230,8,187,27,16,176,245,121,111,145,202,129,148,97,114,249,254,108,80,76,173,139,30,145,}},
 {{32,170,82,76,3,195,168,246,146,36,49,208,35,130,8,198,49,253,217,191,253,253,34,138,172,216,55,238,160,239,198,170,},
  {32,170,82,76,3,195,168,246,146,36,49,208,35,130,8,198,49,248,217,191,253,253,34,138,172,216,55,238,160,239,198,170,}},
 {{139,161,131,191,226,33,3,157,110,113,80,104,13,141,175,132,92,35,231,254,92,27,243,250,74,39,236,184,119,42,64,245,},
  {139,161,131,191,226,33,3,157,110,113,80,104,13,141,175,132,92,35,238,254,92,27,243,250,74,39,236,184,119,42,64,245,}},
 {{119,190,108,35,30,247,144,180,151,9,124,33,110,101,148,62,102,116,30,54,73,241,170,43,130,19,17,104,148,171,222,171,},
  {119,190,108,35,30,247,144,180,151,9,124,33,110,101,148,62,102,116,30,51,73,241,170,43,130,19,17,104,148,171,222,171,}},
 {{113,17,88,53,85,245,108,82,47,91,93,25,42,245,223,23,18,193,160,238,198,27,0,162,6,118,71,44,222,214,23,139,},
  {113,17,88,53,85,245,108,82,47,91,93,25,42,245,223,23,18,193,160,238,214,27,0,162,6,118,71,44,222,214,23,139,}},
 {{54,202,151,233,185,144,198,249,161,222,176,242,206,228,122,4,186,153,62,140,239,240,194,196,184,211,112,49,223,19,205,175,},
  {54,202,151,233,185,144,198,249,161,222,176,242,206,228,122,4,186,153,62,140,239,255,194,196,184,211,112,49,223,19,205,175,}},
 {{71,40,245,109,65,58,96,18,187,186,223,206,207,21,20,71,69,181,191,158,4,60,173,17,65,225,69,225,252,113,100,172,},
  {71,40,245,109,65,58,96,18,187,186,223,206,207,21,20,71,69,181,191,158,4,60,167,17,65,225,69,225,252,113,100,172,}},
 {{143,3,129,198,245,115,87,167,236,115,182,174,16,194,179,7,108,70,15,114,177,201,162,27,155,95,57,22,235,171,87,178,},
  {143,3,129,198,245,115,87,167,236,115,182,174,16,194,179,7,108,70,15,114,177,201,162,24,155,95,57,22,235,171,87,178,}},
 {{149,244,108,101,21,217,241,65,221,197,210,223,175,130,217,211,44,252,155,107,165,119,250,1,179,8,41,174,82,75,45,123,},
  {149,244,108,101,21,217,241,65,221,197,210,223,175,130,217,211,44,252,155,107,165,119,250,1,181,8,41,174,82,75,45,123,}},
 {{94,121,202,83,1,77,41,52,116,89,201,26,17,227,224,219,123,172,82,35,21,7,17,175,165,114,38,154,77,49,240,60,},
  {94,121,202,83,1,77,41,52,116,89,201,26,17,227,224,219,123,172,82,35,21,7,17,175,165,118,38,154,77,49,240,60,}},
 {{75,241,134,186,142,174,159,144,123,233,23,254,225,253,72,237,61,1,14,169,208,32,56,49,242,86,101,76,220,192,98,214,},
  {75,241,134,186,142,174,159,144,123,233,23,254,225,253,72,237,61,1,14,169,208,32,56,49,242,86,119,76,220,192,98,214,}},
 {{129,116,1,236,151,102,58,54,16,170,119,234,173,176,224,40,227,94,209,252,84,37,178,100,237,7,110,173,184,112,231,0,},
  {129,116,1,236,151,102,58,54,16,170,119,234,173,176,224,40,227,94,209,252,84,37,178,100,237,7,110,189,184,112,231,0,}},
 {{84,110,25,131,79,212,158,25,216,222,179,122,82,58,90,178,159,99,107,58,77,125,16,49,25,252,60,101,170,216,201,95,},
  {84,110,25,131,79,212,158,25,216,222,179,122,82,58,90,178,159,99,107,58,77,125,16,49,25,252,60,101,163,216,201,95,}},
 {{190,6,102,75,146,9,3,169,149,149,37,230,248,230,19,155,108,127,215,2,136,222,51,29,147,104,20,46,159,31,25,80,},
  {190,6,102,75,146,9,3,169,149,149,37,230,248,230,19,155,108,127,215,2,136,222,51,29,147,104,20,46,159,18,25,80,}},
 {{2,20,250,220,212,30,191,17,199,78,117,157,8,254,5,25,130,127,8,215,187,184,247,175,39,10,158,195,104,102,152,162,},
  {2,20,250,220,212,30,191,17,199,78,117,157,8,254,5,25,130,127,8,215,187,184,247,175,39,10,158,195,104,102,213,162,}},
 {{213,112,141,100,164,202,180,151,6,30,235,52,156,157,247,232,136,89,86,64,166,34,81,109,141,15,2,132,79,152,3,91,},
  {213,112,141,100,164,202,180,151,6,30,235,52,156,157,247,232,136,89,86,64,166,34,81,109,141,15,2,132,79,152,3,65,}},
};
