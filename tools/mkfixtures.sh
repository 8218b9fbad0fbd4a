#!/bin/bash
# Development-time generator of the committed certificate fixtures (fixtures/x509). Not used by checks.
set -e
V=$(cd "$(dirname "$0")/.." && pwd); O=$V/fixtures/x509; W=$(mktemp -d); cd "$W"
mkdir -p "$O"
key() { case $2 in
 p256) openssl ecparam -name prime256v1 -genkey -noout -out $1.key;;
 p384) openssl ecparam -name secp384r1 -genkey -noout -out $1.key;;
 rsa) openssl genrsa -out $1.key 2048;;
 rsa1024) openssl genrsa -out $1.key 1024;;
 ed) openssl genpkey -algorithm ed25519 -out $1.key;;
esac; }
touch index.txt; echo 1000 > serial; mkdir new
cat > ca.cnf <<C
[ca]
default_ca=d
[d]
dir=$W
database=$W/index.txt
new_certs_dir=$W/new
serial=$W/serial
default_md=sha256
policy=p
unique_subject=no
copy_extensions=none
[p]
commonName=supplied
C
# cert NAME KEYTYPE ISSUER START END EXT...
cert() { local n=$1 k=$2 i=$3 s=$4 e=$5; shift 5
 key $n $k 2>/dev/null
 { echo "[x]"; for l in "$@"; do echo "$l"; done; } > $n.ext
 openssl req -new -key $n.key -subj "/CN=vp $n" -out $n.csr
 if [ $i = self ]; then a="-selfsign -keyfile $n.key -in $n.csr"; else a="-cert $i.pem -keyfile $i.key -in $n.csr"; fi
 openssl ca -batch -notext -config ca.cnf $a -startdate $s -enddate $e -extfile $n.ext -extensions x -out $n.pem 2>ca.log || { cat ca.log; exit 1; }
 openssl x509 -in $n.pem -outform der -out $O/$n.der
}
CA="basicConstraints=critical,CA:TRUE"; KU="keyUsage=critical,keyCertSign,cRLSign"; SKI="subjectKeyIdentifier=hash"
S="extendedKeyUsage=serverAuth"
cert root p256 self 20200101000000Z 20400101000000Z "$CA" "$KU" "$SKI"
cert root2 p384 self 20200101000000Z 20400101000000Z "$CA" "$KU" "$SKI"
cert inter p256 root 20210101000000Z 20350101000000Z "$CA" "$KU" "$SKI"
cert inter2 rsa inter 20220101000000Z 20340101000000Z "$CA" "$KU" "$SKI"
cert inter_len0 p256 root 20210101000000Z 20350101000000Z "basicConstraints=critical,CA:TRUE,pathlen:0" "$KU" "$SKI"
cert inter_under_len0 p256 inter_len0 20210101000000Z 20350101000000Z "$CA" "$KU" "$SKI"
cert inter_nonca p256 root 20210101000000Z 20350101000000Z "basicConstraints=critical,CA:FALSE" "$SKI"
cert inter_nc p256 root 20210101000000Z 20350101000000Z "$CA" "$KU" "$SKI" "nameConstraints=critical,permitted;DNS:example.com"
SAN="subjectAltName=DNS:example.com,DNS:*.wild.example.org,DNS:Upper.Example.NET"
L() { cert "$1" "$2" "$3" "$4" "$5" "basicConstraints=critical,CA:FALSE" "${6:-$SAN}" "${7:-$S}"; }
L leaf_root_p256 p256 root 20230101000000Z 20300101000000Z
L leaf_p256 p256 inter 20240101000000Z 20260101000000Z
L leaf_p384 p384 inter 20240101000000Z 20260101000000Z
L leaf_rsa rsa inter 20240101000000Z 20260101000000Z
L leaf_rsa1024 rsa1024 inter 20240101000000Z 20260101000000Z
L leaf_ed ed inter 20240101000000Z 20260101000000Z
L leaf_deep p256 inter2 20240101000000Z 20260101000000Z
L leaf_root2 p256 root2 20240101000000Z 20260101000000Z
L leaf_client p256 inter 20240101000000Z 20260101000000Z "$SAN" "extendedKeyUsage=clientAuth"
L leaf_noeku p256 inter 20240101000000Z 20260101000000Z "$SAN" "keyUsage=digitalSignature"
L leaf_nonca p256 inter_nonca 20240101000000Z 20260101000000Z
L leaf_len0 p256 inter_len0 20240101000000Z 20260101000000Z
L leaf_under_len0 p256 inter_under_len0 20240101000000Z 20260101000000Z
L leaf_nc_ok p256 inter_nc 20240101000000Z 20260101000000Z "subjectAltName=DNS:a.example.com"
L leaf_nc_bad p256 inter_nc 20240101000000Z 20260101000000Z "subjectAltName=DNS:a.example.com,DNS:evil.org"
L leaf_nosan p256 inter 20240101000000Z 20260101000000Z "subjectAltName=email:a@example.com"
L leaf_ip p256 inter 20240101000000Z 20260101000000Z "subjectAltName=IP:10.0.0.1"
# one signed handshake message: client random | server random | ECDHE params
python3 - <<P
import os
cr=bytes(range(1,33)); sr=bytes(range(101,133))
kx=bytes([3,0,23,65,4])+bytes((i*7+1)&255 for i in range(64))
open("$O/kx_message.bin","wb").write(cr+sr+kx)
P
sig() { openssl dgst -$3 -sign $1.key "${@:4}" -out $O/sig_$1.$2.bin $O/kx_message.bin; }
for k in leaf_p256 leaf_p384 leaf_deep leaf_root_p256; do for h in 256 384 512; do sig $k ecdsa_sha$h sha$h; done; done
for k in leaf_rsa leaf_rsa1024; do for h in 256 384 512; do
 sig $k pkcs1_sha$h sha$h
 [ $k$h = leaf_rsa1024512 ] || sig $k pss_sha$h sha$h -sigopt rsa_padding_mode:pss -sigopt rsa_pss_saltlen:digest
 [ $k != leaf_rsa ] || sig $k pss0_sha$h sha$h -sigopt rsa_padding_mode:pss -sigopt rsa_pss_saltlen:0
done; sig $k pkcs1_sha1 sha1; done
openssl pkeyutl -sign -rawin -inkey leaf_ed.key -in $O/kx_message.bin -out $O/sig_leaf_ed.ed25519.bin
# private keys in PKCS#8 DER for harness-side signing
for k in leaf_p256 leaf_p384 leaf_rsa leaf_ed leaf_deep leaf_root_p256; do openssl pkcs8 -topk8 -nocrypt -in $k.key -outform der -out $O/$k.p8; done
rm -rf "$W"
