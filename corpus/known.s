# one call for each listed finding: the check of a property that has the operation makes these too
fmod 64 m=0 f=0 n=0 b=0 31c0000000000005 7800000000000000
strtod 64 m=0 f=0 n=0 b=0 s31303030652d343030
wcstod 64 m=0 f=0 n=0 b=0 s31303030652d343030
tof128 128 m=0 f=0 n=0 b=0 0950b3b8e2eda91a232dd950102978da
