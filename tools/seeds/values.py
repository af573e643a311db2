# seeded bugs of value expressions (M05)
exec(open('/verif/tools/seeds/mandos.py').read().split("def RT(")[0])
V='''package mandosexpressionreconstructor_test

import (
	"bytes"
	"testing"

	ei "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/expression/interpreter"
	er "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/expression/reconstructor"
)

func roundTrip(t *testing.T, value []byte, hint er.ExprReconstructorHint) {
	r := er.ExprReconstructor{}
	i := ei.ExprInterpreter{}
	text := r.Reconstruct(value, hint)
	back, err := i.InterpretString(text)
	if err != nil {
		t.Fatalf("%x is written as %q, which cannot be read: %v", value, text, err)
	}
	if !bytes.Equal(back, value) {
		t.Fatalf("%x is written as %q, which reads back as %x", value, text, back)
	}
}
'''
SEEDS=[
dict(ID='m05-name-trimmed-in-front', PROPERTY='M05', NEEDS='an address whose name begins with an underscore',
 BREAKS='underscores in front of the name of an address are not written: the written address is another one',
 EDITS=[('mandos-go/expression/reconstructor/reconstructor.go',"""		addrStr := string(value)
		addrStr = strings.TrimRight(addrStr, "_")""","""		addrStr := string(value)
		addrStr = strings.Trim(addrStr, "_")""")],
 PKG='mandos-go/expression/reconstructor', TEST=V+"""
func TestDemo(t *testing.T) {
	roundTrip(t, []byte("alice___________________________"), er.AddressHint)
	roundTrip(t, []byte("_owner__________________________"), er.AddressHint)
}
"""),
dict(ID='m05-dump-cuts-balance', PROPERTY='M05', NEEDS='an account whose balance needs more than 64 bits',
 BREAKS='the dump of the world writes only the low 64 bits of the balance of an account',
 EDITS=[('arwenmandos/stepDumpWorld.go','ae.exprReconstructor.ReconstructFromBigInt(account.Balance)','ae.exprReconstructor.ReconstructFromUint64(account.Balance.Uint64())')],
 PKG='arwenmandos', TEST=AM+'''
func TestDemo(t *testing.T) {
	ae := executor()
	acct := ae.World.AcctMap.CreateAccount([]byte("12345678901234567890123456789012"), ae.World)
	acct.Balance, _ = big.NewInt(0).SetString("100000000000000000000000000", 10)
	dumped, err := ae.convertMockAccountToMandosFormat(acct)
	if err != nil {
		t.Fatal(err)
	}
	if dumped.Balance.Original != "100000000000000000000000000" {
		t.Fatalf("balance written as %s", dumped.Balance.Original)
	}
}
'''),
dict(ID='m05-contract-zeros-by-first-byte', PROPERTY='M05', NEEDS='an ordinary address that begins with a few zero bytes',
 BREAKS='addresses of users that begin with four zero bytes are written as addresses of contracts, and four of their bytes are lost',
 EDITS=[('mandos-go/expression/reconstructor/reconstructor.go','''	leadingZeros := make([]byte, ei.SCAddressNumLeadingZeros)
	if bytes.Equal(value[:ei.SCAddressNumLeadingZeros], leadingZeros) {''','''	leadingZeros := make([]byte, ei.SCAddressNumLeadingZeros/2)
	if bytes.Equal(value[:len(leadingZeros)], leadingZeros) {''')],
 PKG='mandos-go/expression/reconstructor', TEST=V+'''
func TestDemo(t *testing.T) {
	a := []byte("\\x00\\x00\\x00\\x00bob________________________\\x22")
	a = append(a, bytes.Repeat([]byte{'_'}, 32-len(a))...)
	roundTrip(t, a[:32], er.AddressHint)
	roundTrip(t, []byte("\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00carol__________________\\x22"), er.AddressHint)
}
'''),
]
