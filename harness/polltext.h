#pragma clang section text="polltext"
