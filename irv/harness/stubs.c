/* tracing hooks of the reference implementations (defined by the test programs, not by the library) */
#define S(n) __attribute__((weak)) void n(void) {}
S(displayByteString) S(displayBytes) S(displayRoundNumber) S(displayStateAsBytes) S(displayStateAsLanes) S(displayText) S(displayBits)
