#!/usr/bin/env bash
# mkcerts.sh <dir>: the certification authorities and server certificates of C23
set -eu
d=$1; rm -rf "${d:?}"; mkdir -p "$d"; cd "$d"
cat > ca.cnf <<'C'
[ca]
default_ca = x
[x]
database = $ENV::NAME.db
new_certs_dir = .
serial = $ENV::NAME.srl
default_md = sha256
policy = pol
unique_subject = no
copy_extensions = copy
rand_serial = yes
email_in_dn = no
[pol]
commonName = supplied
[req]
distinguished_name = dn
[dn]
[v3_ca]
basicConstraints = critical,CA:TRUE
keyUsage = critical,keyCertSign,cRLSign
subjectKeyIdentifier = hash
[v3_leaf]
basicConstraints = CA:FALSE
[v3_client]
basicConstraints = CA:FALSE
extendedKeyUsage = clientAuth
C
key() { openssl genpkey -algorithm EC -pkeyopt ec_paramgen_curve:P-256 -out "$1.key" 2>/dev/null; }
PAST=20150101000000Z; MID=20200101000000Z; FAR=20491231000000Z; LATER=20480101000000Z
# sign <name> <subject> <issuer> <ext> <from> <to> [san]      (issuer "-" = itself)
sign() {
  export NAME=$1; local n=$1 cn=$2 by=$3 ext=$4 from=$5 to=$6 san=${7:-}
  [ -f "$n.key" ] || key "$n"
  openssl req -new -key "$n.key" -subj "/CN=$cn" ${san:+-addext "subjectAltName=$san"} -config ca.cnf -out "$n.csr" 2>>err
  : > "$n.db"
  if [ "$by" = - ]; then openssl ca -batch -config ca.cnf -selfsign -keyfile "$n.key" -in "$n.csr" -extensions "$ext" -startdate $from -enddate $to -notext -out "$n.pem" 2>>err
  else openssl ca -batch -config ca.cnf -keyfile "$by.key" -cert "$by.pem" -in "$n.csr" -extensions "$ext" -startdate $from -enddate $to -notext -out "$n.pem" 2>/dev/null; fi
  openssl x509 -in "$n.pem" -outform DER -out "$n.der"
  cp "$n.pem" "$n.chain"
}
ALL=DNS:localhost,IP:127.0.0.1,IP:::1
sign ca "Test CA" - v3_ca $PAST $FAR
sign sysca "System CA" - v3_ca $PAST $FAR
sign otherca "Other CA" - v3_ca $PAST $FAR
sign oldca "Old CA" - v3_ca $PAST $MID
sign fakeca "Test CA" - v3_ca $PAST $FAR
sign inter "Intermediate" ca v3_ca $PAST $FAR
sign good server ca v3_leaf $PAST $FAR $ALL
sign dns server ca v3_leaf $PAST $FAR DNS:localhost
sign ip4 server ca v3_leaf $PAST $FAR IP:127.0.0.1
sign ip6 server ca v3_leaf $PAST $FAR IP:::1
sign wronghost server ca v3_leaf $PAST $FAR DNS:example.org,IP:10.1.2.3,DNS:localhost.example.org
sign ipasdns server ca v3_leaf $PAST $FAR DNS:example.org
sign wild server ca v3_leaf $PAST $FAR 'DNS:*.localhost'
sign expired server ca v3_leaf $PAST $MID $ALL
sign notyet server ca v3_leaf $LATER $FAR $ALL
sign self server - v3_leaf $PAST $FAR $ALL
sign other server otherca v3_leaf $PAST $FAR $ALL
sign sys server sysca v3_leaf $PAST $FAR $ALL
sign old server oldca v3_leaf $PAST $FAR $ALL
sign forged server fakeca v3_leaf $PAST $FAR $ALL
sign client server ca v3_client $PAST $FAR $ALL
sign nochain server inter v3_leaf $PAST $FAR $ALL
sign chain server inter v3_leaf $PAST $FAR $ALL; cat inter.pem >> chain.chain
sign notca server good v3_leaf $PAST $FAR $ALL; cat good.pem >> notca.chain
openssl genpkey -algorithm RSA -pkeyopt rsa_keygen_bits:2048 -out rsa.key 2>>err
sign rsa server ca v3_leaf $PAST $FAR $ALL
rm -f ./*.csr ./*.db* ./*.srl* ./??????????????????????????*.pem
touch done
