import json,subprocess
log=subprocess.check_output(['git','-C','/repo','log','--format=%h %s'],text=True).splitlines()
M={'fp6::frobeniusMap':('B01','fp6::frobeniusMap(3) returned other coefficients than fp6::frobeniusMapAssign(3)'),
'fp12 Frobenius':('B01','fp12::frobeniusMap/Assign(12 or more) read beyond the coefficient table'),
'encoding of a non-identity':('D02','g1::zero().toCompressedBytesBE() was 80 00.. which decodes to the point (0,2)'),
'accepted abscissas':('D02','g1/g2::fromCompressedBytesBE accepted x+p in place of x (g2: in its first half)'),
'many encodings':('D02','any bytes after the infinity flag (and a set sign flag) decoded to the identity'),
'Add64/Sub64':('A04','Add64(x, 2^64-1, 1) returned carry 0 and Sub64(x, 2^64-1, 1) borrow 0'),
'scalar::add stored':('A04','scalar::add<NC,NA,NB> wrote the final carry to word N+1 instead of N and threw when it fitted exactly'),
'hexToBytes read':('H06','hexToBytes of an empty or one-character string_view read beyond the view'),
'fromMessage hashed':('F02','fromMessage with a tag above 255 bytes hashed uninitialised stack bytes'),
'hkdf256_expand leaked':('H02','hkdf256_expand(L=0) leaked both buffers; unchecked malloc and HMAC status'),
'secret_key ignored':('H02','secret_key used a null buffer after a failed malloc and uninitialised output after a failed derivation'),
'hardened child':('H02','derive_child_sk hashed uninitialised Lamport chunks when expansion failed'),
'miller_loop read':('H01','pairing::miller_loop with an empty span looped 2^64 times out of bounds'),
'doubling multiply-add':('A04','madd1sb(2^64-2, 2^63+1, 4) returned (0,0,0) instead of (1,0,0): carry into the third word lost'),
'g1::mapToCurve returned':('F02','g1::mapToCurve of the field elements whose SWU image lies in the rational 11-torsion kernel of the isogeny returned (0,0,1) scaled, a point off the curve (e.g. u=0x1377c019...48f0)'),
'hkdf256_hmac copied':('H01','hkdf256_hmac with a key above 64 bytes called memcpy with overlapping (identical) source and destination')}
out=[]
for l in log:
    h,s=l.split(' ',1)
    for k,(p,w) in M.items():
        if k in s: out.append({'status':'fixed','property':p,'commit':h,'what':w,'line':'fixed: property=%s %s %s'%(p,h,w)})
json.dump({'findings':out},open('/verif/known_findings.json','w'),indent=1); print(len(out))
