# seeded bugs of the simulated blockchain (W01)
W='''package worldmock_test

import (
	"bytes"
	"testing"

	worldmock "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mock/world"
)
'''
AC='mock/world/worldAccount.go'; AM='mock/world/worldAccountMap.go'; AD='mock/world/worldAccountsAdapter.go'; DF='mock/world/worldDef.go'
SEEDS=[
dict(ID='w01-empty-storage-not-reverted', PROPERTY='W01', NEEDS='an account whose storage was empty when the snapshot was taken',
 BREAKS='returning to a snapshot leaves the later storage of accounts that had none',
 EDITS=[(AM,"""		account.Storage = otherAccount.Storage
""","""		if len(otherAccount.Storage) == 0 {
			continue
		}
		account.Storage = otherAccount.Storage
""")], PKG='mock/world', TEST=W.replace('	"bytes"\n','')+'''
func TestDemoSnapshotOfEmptyStorage(t *testing.T) {
	for _, full := range []bool{true, false} {
		w := worldmock.NewMockWorld()
		acct := w.AcctMap.CreateAccount([]byte("address of the first account....."), w)
		if full {
			acct.Storage["k"] = []byte("old")
		}
		n := w.GetSnapshot()
		acct.Storage["k"] = []byte("new")
		acct.Storage["l"] = []byte("new")
		if err := w.RevertToSnapshot(n); err != nil {
			t.Fatal(err)
		}
		if _, ok := acct.Storage["l"]; ok {
			t.Fatalf("a value written after the snapshot is still there (storage filled before: %v)", full)
		}
	}
}
'''),
dict(ID='w01-short-values-shared', PROPERTY='W01', NEEDS='storage values of an account shorter than a word that are changed in place after the snapshot',
 BREAKS='the snapshot shares short storage values with the account',
 EDITS=[(AC,"""		clone[key] = cloneBytes(value)
""","""		if len(value) < 8 {
			clone[key] = value
			continue
		}
		clone[key] = cloneBytes(value)
""")], PKG='mock/world', TEST=W+'''
func TestDemoSnapshotIsIndependent(t *testing.T) {
	for _, size := range []int{1, 7, 8, 40} {
		w := worldmock.NewMockWorld()
		acct := w.AcctMap.CreateAccount([]byte("address of the first account....."), w)
		acct.Storage["k"] = bytes.Repeat([]byte{1}, size)
		n := w.GetSnapshot()
		acct.Storage["k"][0] = 9
		if err := w.RevertToSnapshot(n); err != nil {
			t.Fatal(err)
		}
		if !bytes.Equal(acct.Storage["k"], bytes.Repeat([]byte{1}, size)) {
			t.Fatalf("after returning to the snapshot the value is %x", acct.Storage["k"])
		}
	}
}
'''),
dict(ID='w01-revert-keeps-snapshot', PROPERTY='W01', NEEDS='two failures after each other: the storage the first one left is shared with the snapshot it returned to',
 BREAKS='the snapshot returned to stays in the list and shares its storage with the accounts',
 EDITS=[(AD,"m.Snapshots = m.Snapshots[:snapshotIndex]","m.Snapshots = m.Snapshots[:snapshotIndex+1]")], PKG='mock/world', TEST=W.replace('	"bytes"\n','')+'''
func TestDemoRevertTwice(t *testing.T) {
	w := worldmock.NewMockWorld()
	acct := w.AcctMap.CreateAccount([]byte("address of the first account....."), w)
	acct.Storage["k"] = []byte("old")
	first := w.GetSnapshot()
	if err := w.RevertToSnapshot(first); err != nil {
		t.Fatal(err)
	}
	acct.Storage["k"] = []byte("committed later")
	again := w.GetSnapshot()
	if again != first {
		t.Fatalf("the second snapshot has number %d, the first, dropped one had %d", again, first)
	}
	acct.Storage["k"] = []byte("new")
	if err := w.RevertToSnapshot(again); err != nil {
		t.Fatal(err)
	}
	if string(acct.Storage["k"]) != "committed later" {
		t.Fatalf("returned to %s", acct.Storage["k"])
	}
}
'''),
]
