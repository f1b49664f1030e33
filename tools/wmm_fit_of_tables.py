import json,numpy as np
from math import factorial
T=json.load(open('/tmp/tables.json'))
A_,B_=6378.137,6356.7523142; RE=6371.2; N=12
def schmidt(n,m,th):
    # values of P_n^m (schmidt) and derivative by numeric central diff
    from scipy.special import lpmv
    x=np.cos(th)
    p=lpmv(m,n,x)*(-1)**m
    if m>0: p*=np.sqrt(2*factorial(n-m)/factorial(n+m))
    return p
rows=[];rhs=[];ids=[]
for i in range(19):
    lat=np.radians(-90+10*i)
    if abs(abs(lat)-np.pi/2)<1e-9: lat=np.sign(lat)*(np.pi/2-2e-4)
    Nn=A_**2/np.sqrt((A_*np.cos(lat))**2+(B_*np.sin(lat))**2)
    x=Nn*np.cos(lat); z=Nn*(B_/A_)**2*np.sin(lat); r=np.hypot(x,z); latc=np.arctan2(z,x); th=np.pi/2-latc; d=lat-latc
    for j in range(36):
        lon=np.radians(-180+10*j)
        D=T['declination'][i][j]*1e-4;I=T['inclination'][i][j]*1e-4;F=T['strength'][i][j]*10. # nT
        X,Y,Z=F*np.cos(I)*np.cos(D),F*np.cos(I)*np.sin(D),F*np.sin(I)
        # geocentric components
        Xc=X*np.cos(d)+Z*np.sin(-d)*-1*-1 if False else X*np.cos(d)-Z*np.sin(-d)*-1
        # rotation: geodetic -> geocentric by psi=latc-lat:  Xg = Xc cos psi - Zc sin psi ; Zg= Xc sin psi + Zc cos psi
        psi=latc-lat
        Xc= X*np.cos(psi)+Z*np.sin(psi); Zc=-X*np.sin(psi)+Z*np.cos(psi)
        rx=[];ry=[];rz=[]
        for n in range(1,N+1):
            f=(RE/r)**(n+2)
            for m in range(n+1):
                P=schmidt(n,m,th); h=1e-5; dP=(schmidt(n,m,th+h)-schmidt(n,m,th-h))/(2*h)
                c,s=np.cos(m*lon),np.sin(m*lon)
                for (cs,dcs,use) in ((c,-m*s,1),(s,m*c,m>0)):
                    if not use: continue
                    rx.append(f*cs*dP); ry.append(-f*dcs*P/np.sin(th)); rz.append(-(n+1)*f*cs*P)
        rows+= [rx,ry,rz]; rhs+=[Xc,Yc if False else Y,Zc]; ids+=[(i,j,'X'),(i,j,'Y'),(i,j,'Z')]
M=np.array(rows);b=np.array(rhs)
sol=np.linalg.lstsq(M,b,rcond=None)[0]
res=b-M@sol
print('g10',sol[0],'rms',res.std(),'max',abs(res).max())
o=np.argsort(-abs(res))[:15]
for k in o: print(ids[k],res[k])
