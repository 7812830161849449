// Ocean is not available offline: as in /opt/vp's build, the 7 functions of PixelFrameOcean.cpp and
// PixelFrameOptions.cpp are replaced. Here they report "not done", so that callers' own code runs.
#define STUB_FALSE(n, symbol)                         \
  extern "C" bool left_out_##n(...) __asm__(symbol);  \
  extern "C" bool left_out_##n(...) { return false; }
STUB_FALSE(1, "_ZNK3vrs5utils10PixelFrame31normalizeToPixelFormatWithOceanERS1_NS_11PixelFormatERKNS0_16NormalizeOptionsE")
STUB_FALSE(2, "_ZN3vrs5utils10PixelFrame13msssimCompareERKS1_Rd")
STUB_FALSE(3, "_ZN3vrs5utils13ResizeOptions9withRatioEf")
STUB_FALSE(4, "_ZN3vrs5utils13ResizeOptions14withResolutionEjj")
STUB_FALSE(5, "_ZNK3vrs5utils13ResizeOptions23computeTargetDimensionsEjjRjS2_")
STUB_FALSE(6, "_ZN3vrs5utils13ResizeOptions9canResizeENS_11PixelFormatE")
STUB_FALSE(7, "_ZNK3vrs5utils13ResizeOptions6resizeERKNS0_10PixelFrameE")
