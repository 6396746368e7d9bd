// the first four frames of /repo/tests/test-audio/sine.mp3
static const unsigned char MP3_DATA[] = {
    255,251,176,96,0,0,4,16,50,201,77,105,128,0,62,224,169,138,161,0,1,19,221,83,
    79,185,230,128,24,236,129,107,107,24,0,2,102,90,42,170,170,205,194,160,131,38,214,217,
    241,230,114,88,132,26,53,210,142,148,34,36,6,56,225,154,28,24,1,150,53,132,76,44,
    161,109,22,165,169,52,16,1,0,56,13,4,130,121,251,236,24,24,24,44,48,39,159,198,
    194,197,142,81,97,153,255,209,99,148,162,195,53,255,74,82,113,133,235,254,148,233,154,47,
    127,233,78,153,162,247,255,41,51,52,94,255,229,38,102,139,238,57,205,17,159,32,181,3,
    251,68,103,235,80,63,196,103,248,63,203,159,224,254,76,185,250,224,255,46,254,31,64,154,
    253,38,216,18,243,189,53,160,24,124,129,113,192,251,225,242,231,235,120,63,203,159,174,31,
    229,223,91,195,251,127,255,254,93,225,252,62,93,242,239,15,214,31,46,248,157,225,252,62,
    93,241,57,240,253,96,249,119,196,231,219,88,62,218,32,21,203,229,132,195,97,176,216,144,
    74,38,7,23,47,166,105,146,20,231,28,84,132,100,130,27,70,194,96,66,99,96,1,230,
    11,192,52,28,5,43,214,36,60,0,254,68,2,229,232,111,224,143,208,101,10,112,183,15,
    58,194,224,54,12,177,152,119,27,240,170,13,130,118,38,5,68,146,103,60,100,5,204,47,
    3,192,96,204,147,56,147,252,76,9,65,206,48,133,194,93,73,84,175,227,208,192,190,61,
    12,11,229,197,43,87,252,152,61,199,1,48,147,36,14,18,100,130,181,106,255,231,12,203,
    135,12,204,12,140,204,12,142,171,86,175,255,230,6,71,78,25,29,81,145,213,21,132,104,
    222,45,247,109,84,0,66,8,24,16,8,5,226,241,120,89,114,87,9,170,61,254,43,255,
    21,83,125,65,81,19,127,10,150,111,240,100,26,13,131,47,93,171,242,193,176,100,12,27,
    6,109,93,191,129,131,97,192,49,147,70,198,218,187,86,180,4,177,0,0,172,68,0,0,
    248,49,22,138,254,0,0,0,0,48,80,13,19,4,197,153,48,225,1,88,185,128,32,3,
    175,212,185,2,128,16,56,3,145,228,28,2,178,167,42,33,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,251,176,96,84,128,11,228,6,212,119,120,0,8,5,192,58,244,225,0,1,4,
    36,27,73,206,227,2,160,22,128,235,208,80,128,4,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,242,64,0,0,4,130,128,1,30,180,0,0,0,0,12,
    29,0,205,56,120,78,145,8,195,134,1,229,173,193,103,164,128,9,232,39,4,17,145,195,
    4,0,0,0,8,83,16,20,154,236,0,0,0,0,48,69,6,163,22,4,90,50,37,6,
    3,2,128,11,1,89,5,65,70,78,145,167,40,168,1,65,202,32,79,207,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,251,176,96,167,0,15,250,6,210,115,216,120,170,40,192,58,244,20,32,
    1,4,140,27,77,207,99,2,168,6,0,235,128,17,0,4,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,201,0,0,0,16,146,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,33,38,154,237,0,0,
    0,0,48,13,8,3,5,245,228,48,180,8,64,184,10,142,17,109,142,41,6,204,10,47,
    128,242,216,226,226,126,81,140,0,4,122,220,0,0,0,0,48,112,2,52,229,228,58,64,
    34,12,24,199,144,183,197,152,146,96,38,32,144,18,86,65,13,197,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,251,176,96,167,0,15,250,6,210,115,184,192,168,35,32,58,244,
    20,32,1,4,184,27,73,207,97,226,168,23,0,235,208,80,128,4,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,200,0,0,0,16,181,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,226,2,147,93,128,0,0,0,6,8,
    128,214,98,194,139,38,68,128,190,96,82,1,64,42,160,176,40,169,212,52,213,22,0,36,
    57,133,37,216,18,0,0,0,33,22,33,38,154,237,0,0,0,0,48,12,8,19,5,229,
    229,48,179,8,80,176,10,14,149,108,14,173,6,12,43,47,152,242,24,250,225,118,63,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
    255,255,255,255,255,255,255,255,
};
