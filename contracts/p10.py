from contracts import p09
