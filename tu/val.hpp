#pragma once
// Opaque element/result type: every operation is external and may throw.
struct Val {
    Val(); Val(Val const&); Val(Val&&); ~Val();
    Val& operator=(Val const&); Val& operator=(Val&&);
    int x, y, z;
};
