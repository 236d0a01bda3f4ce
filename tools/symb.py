import bisect,sys,glob
f=sorted(glob.glob('/verif/build/vc-*.sym'))[-1]
L=[l.split() for l in open(f)]; A=[int(a,16) for a,_ in L]
for x in sys.argv[1:]:
    x=int(x,16); i=bisect.bisect(A,x)-1; print('%x'%x,L[i][1],hex(x-A[i]))
