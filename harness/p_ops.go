package main

import (
	"context"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"syscall"
	"time"

	xc "github.com/proximax-storage/go-xpx-crypto"

	"vf/ref"
	"vf/ref/ed"
)

// Operations of histories and concurrent programs. Args holds all input values of
// one operation; objs holds the objects it runs on, shared ones or fresh ones.

type Args struct {
	Kind             string
	Priv, Priv2      Hex // of the acting and of the other party
	Pub, Pub2        Hex // public keys of the acting and of the other party as given to the library
	Msg, Msg2        Hex
	R, S             Hex
	In, Salt, E1, E2 Hex
	K1, K2           Hex // scalars
	P, Q             Pt
	Rp, Rq           Rep
	N, How           int
	Rnd              Hex    // bytes the source still delivers
	Mode             string // how it ends then
}

type objs struct {
	kp        *xc.KeyPair // acting party
	signer    dsa
	ver       dsa // holds Pub only
	enc, dec  xc.BlockCipher
	sh        *xc.Ed25519BlockCipher
	priv      *xc.PrivateKey
	pub       *xc.PublicKey
	sig       *xc.Signature
	gen       xc.KeyGenerator
	msg, msg2 []byte
	in, salt  []byte
	e1, e2    []byte
	k1, k2    []byte
	p, q      *xc.Ed25519GroupElement
	keep      func(name string, b []byte) // told every returned byte string, may be nil
	keepSig   func(s *xc.Signature)
	keepInt   func(name string, v *big.Int)
}

func hx(b []byte) string { return hex.EncodeToString(b) }

func orErr(b []byte, err error) string {
	if err != nil {
		if b != nil {
			return "refused with output"
		}
		return "refused"
	}
	return hx(b)
}

func affStr(a ref.Aff) string { return a.X.Text(16) + "," + a.Y.Text(16) }

func gotAff(g *xc.Ed25519GroupElement, cs xc.CoordinateSystem, err error) string {
	if err != nil {
		return "refused"
	}
	a, err := affine(g, cs)
	if err != nil {
		return err.Error()
	}
	if g.IsPrecomputedForDoubleScalarMultiplication() { // nobody asked for that
		return affStr(a) + " with a table"
	}
	return affStr(a)
}

// use makes a returned point carry tables; no later result may show them.
func use(g *xc.Ed25519GroupElement, err error, n int) {
	if err != nil || g == nil || g.GetCoordinateSystem() != xc.P3 {
		return
	}
	if n&1 == 0 {
		g.PrecomputeForDoubleScalarMultiplication()
	}
	if n%8 == 7 {
		g.PrecomputeForScalarMultiplication()
	}
}

// fresh builds new objects for one operation.
func fresh(a *Args) *objs {
	o := &objs{msg: dup(a.Msg), msg2: dup(a.Msg2), in: dup(a.In), salt: dup(a.Salt), e1: dup(a.E1), e2: dup(a.E2), k1: dup(a.K1), k2: dup(a.K2)}
	switch a.Kind {
	case "sign", "strings":
		o.kp = mustPair(a.Priv, a.Pub, a.How)
		o.signer = signerOf(o.kp, a.How)
	case "verify", "canon":
		o.ver = signerOf(mustPair(nil, a.Pub, a.How), a.How)
		o.sig = sigOf(a.R, a.S)
	case "sigform":
		o.sig = sigOf(a.R, a.S)
	case "encrypt":
		src := Source{End: len(a.Rnd), Fixed: a.Rnd, Mode: a.Mode}
		o.enc = cipherOf(mustPair(a.Priv, nil, a.How), mustPair(nil, a.Pub2, 0), src.reader(), a.How)
	case "decrypt":
		o.dec = cipherOf(mustPair(nil, a.Pub2, a.How), mustPair(a.Priv, nil, 0), nil, a.How)
	case "shared":
		o.sh = xc.NewEd25519BlockCipher(mustPair(a.Priv, nil, 0), mustPair(nil, a.Pub2, 0), nil)
		o.priv, o.pub = xc.NewPrivateKey(dup(a.Priv)), xc.NewPublicKey(dup(a.Pub2))
	case "derive", "clamp":
		o.priv = xc.NewPrivateKey(dup(a.Priv))
	case "genkey":
		src := Source{End: len(a.Rnd), Fixed: a.Rnd, Mode: a.Mode}
		o.gen = xc.NewEd25519KeyGenerator(src.reader())
	case "encode", "equal", "select", "mul", "dmul", "prec":
		o.p = a.Rp.hold(ref.AffOf(a.P.Point()), xc.P3)
		o.q = a.Rq.hold(ref.AffOf(a.Q.Point()), xc.P3)
	}
	return o
}

func (o *objs) outSig(name string, s *xc.Signature) {
	if o.keep != nil && s != nil {
		o.keep("R of "+name, s.R)
		o.keep("S of "+name, s.S)
		if o.keepSig != nil {
			o.keepSig(s)
		}
	}
}

func (o *objs) outInt(name string, v *big.Int) *big.Int {
	if o.keepInt != nil && v != nil {
		o.keepInt(name, v)
	}
	return v
}

func (o *objs) out(name string, b []byte) {
	if o.keep != nil && b != nil {
		o.keep(name, b)
	}
}

// do runs one operation and renders its result.
func do(a *Args, o *objs) (res string) {
	defer func() {
		if p := recover(); p != nil {
			if he, ok := p.(harnessError); ok {
				panic(he)
			}
			res = fmt.Sprintf("panic: %v", p)
		}
	}()
	switch a.Kind {
	case "sign":
		sig, err := o.signer.Sign(o.msg)
		if err != nil || sig == nil {
			return "refused"
		}
		o.outSig("a signature made", sig)
		return hx(sig.R) + hx(sig.S)
	case "verify":
		return fmt.Sprint(o.ver.Verify(o.msg, o.sig))
	case "canon":
		is := o.ver.IsCanonicalSignature(o.sig)
		sig, err := o.ver.MakeSignatureCanonical(o.sig)
		if err != nil {
			return fmt.Sprint(is, " refused")
		}
		o.outSig("a signature made canonical", sig)
		return fmt.Sprint(is, " ", hx(sig.R)+hx(sig.S))
	case "sigform":
		b := o.sig.Bytes()
		s := o.sig.String()
		o.out("Bytes", b)
		return strings.Join([]string{hx(b), s, o.outInt("R as an integer", o.sig.GetR()).Text(16), o.outInt("S as an integer", o.sig.GetS()).Text(16)}, " ")
	case "parse":
		sig, err := xc.NewSignatureFromBytes(o.in)
		if err != nil {
			return "refused"
		}
		b := sig.Bytes()
		o.out("Bytes of a parsed signature", b)
		o.outSig("a parsed signature", sig)
		return hx(sig.R) + hx(sig.S) + " " + hx(b)
	case "frombig":
		r, s := ref.LE(a.E1), ref.LE(a.E2)
		sig, err := xc.NewSignatureFromBigInt(r, s)
		if r.Cmp(ref.LE(a.E1)) != 0 || s.Cmp(ref.LE(a.E2)) != 0 {
			return "integer arguments changed"
		}
		if err != nil {
			return "refused"
		}
		o.outSig("a signature from integers", sig)
		return hx(sig.R) + hx(sig.S)
	case "encrypt":
		ct, err := o.enc.Encrypt(o.msg)
		o.out("a ciphertext", ct)
		return orErr(ct, err)
	case "decrypt":
		pt, err := o.dec.Decrypt(o.in)
		o.out("a plaintext", pt)
		return orErr(pt, err)
	case "shared":
		k, err := o.sh.GetSharedKey(o.priv, o.pub, o.salt)
		o.out("a shared key", k)
		return orErr(k, err)
	case "derive":
		var pk *xc.PublicKey
		if a.How%2 == 0 {
			pk = xc.CryptoEngines.Ed25519Engine.CreateKeyGenerator().DerivePublicKey(o.priv)
		} else {
			kp, err := xc.NewKeyPair(o.priv, nil, engineOf(a.How/2))
			if err != nil {
				return "refused"
			}
			pk = kp.PublicKey
		}
		o.out("a public key", pk.Raw)
		return hx(pk.Raw)
	case "genkey":
		kp, err := o.gen.GenerateKeyPair()
		if err != nil {
			return "refused"
		}
		o.out("a generated private key", kp.PrivateKey.Raw)
		o.out("a generated public key", kp.PublicKey.Raw)
		return hx(kp.PrivateKey.Raw) + " " + hx(kp.PublicKey.Raw)
	case "hash":
		h, err := []func() ([]byte, error){
			func() ([]byte, error) { return xc.HashesSha_256(o.msg) },
			func() ([]byte, error) { return xc.HashesKeccak_256(o.msg) },
			func() ([]byte, error) { return xc.HashesSha3_256(o.msg) },
			func() ([]byte, error) { return xc.HashesSha3_512(o.msg, o.msg2) },
			func() ([]byte, error) { return xc.HashesRipemd160(o.msg) },
			func() ([]byte, error) { return xc.HashesSha3_512(o.msg) },
			func() ([]byte, error) { return xc.HashesSha3_512() },
		}[a.N%7]()
		o.out("a hash", h)
		return orErr(h, err)
	case "strings":
		s, p := o.kp.PrivateKey.String(), o.kp.PublicKey.String()
		sk, err1 := xc.NewPrivateKeyfromHexString(s)
		pk, err2 := xc.NewPublicKeyfromHex(p)
		if err1 != nil || err2 != nil {
			return "refused"
		}
		n := new(big.Int).SetBytes(sk.Raw)
		bk := xc.NewPrivateKeyFromBigInt(n)
		o.out("a parsed private key", sk.Raw)
		o.out("a parsed public key", pk.Raw)
		o.out("a private key from an integer", bk.Raw)
		if n.Cmp(new(big.Int).SetBytes(sk.Raw)) != 0 {
			return "integer argument changed"
		}
		return strings.Join([]string{s, p, hx(sk.Raw), hx(pk.Raw), hx(bk.Raw)}, " ")
	case "clamp":
		e := xc.PrepareForScalarMultiply(o.priv)
		o.out("a clamped scalar", e.Raw)
		return hx(e.Raw)
	case "decode":
		e, err := xc.NewEd25519EncodedGroupElement(o.e1)
		if err != nil {
			return "refused"
		}
		e2, err := xc.NewEd25519EncodedGroupElement(o.e2)
		if err != nil {
			return "refused"
		}
		g, err := e.Decode()
		eq := e.Equals(e2)
		y, yerr := e.GetAffineY()
		if yerr != nil {
			return "y refused"
		}
		s := fmt.Sprint(gotAff(g, xc.P3, err), " ", eq, " ", val(y.Raw).Text(16))
		use(g, err, a.N)
		return s
	case "encode":
		b, err := encodeG(o.p)
		o.out("an encoded point", b)
		return orErr(b, err)
	case "equal":
		return fmt.Sprint(o.p.Equals(o.q), o.q.Equals(o.p), o.p.SatisfiesCurveEquation())
	case "prec":
		if a.N%2 == 0 {
			o.p.PrecomputeForScalarMultiplication()
		} else {
			o.p.PrecomputeForDoubleScalarMultiplication()
		}
		return "done"
	case "select":
		o.p.PrecomputeForScalarMultiplication()
		r, err := o.p.Select(a.N%32, a.N/32%17-8)
		return gotAff(r, xc.PRECOMPUTED, err)
	case "mul":
		o.p.PrecomputeForScalarMultiplication()
		r, err := xc.VX.GMul(o.p, encF(o.k1))
		s := gotAff(r, xc.P3, err)
		use(r, err, a.N)
		return s
	case "dmul":
		o.q.PrecomputeForDoubleScalarMultiplication()
		r, err := xc.VX.GDoubleMul(xc.Ed25519Group.BASE_POINT(), o.q, encF(o.k1), encF(o.k2))
		return gotAff(r, xc.P2, err)
	case "scalar":
		e, err := xc.NewEd25519EncodedFieldElement(o.in)
		if err != nil {
			return "refused"
		}
		r := xc.MathUtils.ReduceModGroupOrder(e)
		s := ""
		if xc.VX.ModQ != nil {
			f := xc.VX.ModQ(e)
			o.out("a reduced scalar", f.Raw)
			s = hx(f.Raw)
		} else {
			s = hx(r.Raw)
		}
		return hx(r.Raw) + " " + s
	case "math":
		v := o.outInt("an integer of bytes", xc.MathUtils.BytesToBigInteger(o.e1))
		b := xc.MathUtils.ToByteArray(v)
		o.out("bytes of an integer", b)
		g, err := xc.MathUtils.ToGroupElement(o.e1)
		s := v.Text(16) + " " + hx(b) + " " + gotAff(g, xc.P3, err)
		use(g, err, a.N)
		return s
	case "field":
		e, err := xc.NewEd25519EncodedFieldElement(o.e1)
		if err != nil {
			return "refused"
		}
		e2, err := xc.NewEd25519EncodedFieldElement(o.e2)
		if err != nil {
			return "refused"
		}
		f, g := e.Decode(), e2.Decode()
		b := f.Encode().Raw
		o.out("an encoded field element", b)
		root := xc.Ed25519FieldElementSqrt(*f, *g)
		return fmt.Sprint(hx(b), f.IsNegative(), f.IsNonZero(), f.Equals(g), e.Equals(e2), e.IsNonZero(), val(root.Raw).Text(16))
	}
	panic(harnessError("operation " + a.Kind))
}

// want is what the operation gives alone, by the reference model.
func want(a *Args) string {
	refused := func(b []byte, err error) string {
		if err != nil {
			return "refused"
		}
		return hx(b)
	}
	switch a.Kind {
	case "sign":
		return hx(ref.Sign(a.Priv, a.Pub, a.Msg))
	case "verify":
		return fmt.Sprint(ref.Verify(a.Pub, a.Msg, a.R, a.S))
	case "canon":
		s := ref.LE(a.S)
		return fmt.Sprint(s.Sign() > 0 && s.Cmp(ref.L) < 0, " ", hx(a.R)+hx(ref.ToLE(ref.ModL(a.S), 32)))
	case "sigform":
		h := hx(a.R) + hx(a.S)
		return strings.Join([]string{h, h, ref.LE(a.R).Text(16), ref.LE(a.S).Text(16)}, " ")
	case "parse":
		if len(a.In) != 64 {
			return "refused"
		}
		return hx(a.In) + " " + hx(a.In)
	case "frombig":
		return hx(a.E1) + hx(a.E2)
	case "encrypt":
		if len(a.Rnd) < 48 {
			return "refused"
		}
		return refused(ref.Encrypt(a.Priv, a.Pub2, a.Rnd[:32], a.Rnd[32:48], a.Msg))
	case "decrypt":
		return refused(ref.Decrypt(a.Priv, a.Pub2, a.In))
	case "shared":
		return refused(ref.SharedKey(a.Priv, a.Pub2, a.Salt))
	case "derive":
		return hx(ref.Pub(a.Priv))
	case "genkey":
		if len(a.Rnd) < 32 {
			return "refused"
		}
		return hx(a.Rnd[:32]) + " " + hx(ref.Pub(a.Rnd[:32]))
	case "hash":
		switch a.N % 7 {
		case 0:
			return hx(ref.SHA256(a.Msg))
		case 1:
			return hx(ref.Keccak256(a.Msg))
		case 2:
			return hx(ref.SHA3256(a.Msg))
		case 3:
			return hx(ref.SHA3512(a.Msg, a.Msg2))
		case 5:
			return hx(ref.SHA3512(a.Msg))
		case 6:
			return hx(ref.SHA3512())
		}
		return hx(ref.RIPEMD160(a.Msg))
	case "strings":
		return strings.Join([]string{hx(a.Priv), strings.ToUpper(hx(a.Pub)), hx(a.Priv), hx(a.Pub), hx(a.Priv)}, " ")
	case "clamp":
		return hx(ref.Clamp(a.Priv))
	case "decode":
		s := "refused"
		if p := ref.Decode(a.E1); p != nil {
			s = affStr(ref.AffOf(p))
		}
		y := ref.LE(a.E1)
		y.SetBit(y, 255, 0)
		return fmt.Sprint(s, " ", hx(a.E1) == hx(a.E2), " ", modP(y).Text(16))
	case "encode":
		return hx(a.P.Point().Bytes())
	case "equal":
		eq := a.P.Point().Equal(a.Q.Point()) == 1
		return fmt.Sprint(eq, eq, true)
	case "prec":
		return "done"
	case "select":
		b := a.N/32%17 - 8
		m := new(big.Int).Lsh(ref.One, uint(8*(a.N%32)))
		m.Mul(m, bi(int64(b))).Mod(m, new(big.Int).Lsh(ref.L, 3)) // 8L is a multiple of every order
		return affStr(ref.AffOf(ed.ScalarMultBits(ref.ToLE(m, 32), a.P.Point())))
	case "mul":
		return affStr(ref.AffOf(ed.ScalarMultBits(a.K1, a.P.Point())))
	case "dmul":
		q := ed.ScalarMultBits(a.K1, a.Q.Point())
		q.Subtract(ref.MulBase(ref.ModL(a.K2)), q)
		return affStr(ref.AffOf(q))
	case "scalar":
		h := hx(ref.ToLE(ref.ModL(a.In), 32))
		return h + " " + h
	case "math":
		s := "refused"
		if p := ref.Decode(a.E1); p != nil {
			s = affStr(ref.AffOf(p))
		}
		return ref.LE(a.E1).Text(16) + " " + hx(a.E1) + " " + s
	case "field":
		v := func(b []byte) *big.Int { x := ref.LE(b); x.SetBit(x, 255, 0); return modP(x) }
		f, g := v(a.E1), v(a.E2)
		return fmt.Sprint(hx(ref.ToLE(f, 32)), f.Bit(0) == 1, f.Sign() != 0, f.Cmp(g) == 0, hx(a.E1) == hx(a.E2), ref.LE(a.E1).Sign() != 0, sqrtFrac(f, g).Text(16))
	}
	panic(harnessError("operation " + a.Kind))
}

// ---------- the operation alone ----------

// alone runs the operation in a process of its own, with fresh objects.
func alone(a *Args) string {
	self, err := os.Executable()
	must(err)
	in, err := json.Marshal(a)
	must(err)
	ctx, cancel := context.WithTimeout(context.Background(), caseLimit-20*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, self, "alone")
	cmd.Env = workerEnv()
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread() // Pdeathsig follows the thread
	defer runtime.UnlockOSThread()
	cmd.Stdin = strings.NewReader(string(in))
	var out, errs strings.Builder
	cmd.Stdout, cmd.Stderr = &out, &errs
	err = cmd.Run()
	s, ok := strings.CutPrefix(out.String(), "RESULT ")
	if !ok || err != nil {
		return fmt.Sprintf("process died: %v %s", err, clip(errs.String(), 300))
	}
	return strings.TrimSuffix(s, "\n")
}

func aloneMain() {
	b, err := io.ReadAll(os.Stdin)
	must(err)
	var a Args
	must(json.Unmarshal(b, &a))
	stdout := os.Stdout
	quietStdout()
	res := do(&a, fresh(&a))
	fmt.Fprintf(stdout, "RESULT %s\n", res)
}

// aloneDiffers counts operations whose result alone differs from the model as
// well: they are wrong, but no matter of history or concurrency.
var aloneDiffers = map[string]int{}

// judge compares an observed result with what the operation gives alone.
func judge(a *Args, got string, rec *Rec) error {
	w := want(a)
	if got == w {
		return nil
	}
	if aloneDiffers[a.Kind] >= 25 {
		rec.Class("not compared: %s is wrong by itself (a matter of other properties)", a.Kind)
		return nil
	}
	if al := alone(a); al == got {
		aloneDiffers[a.Kind]++
		rec.Class("%s wrong by itself (a matter of other properties)", a.Kind)
		return nil
	} else {
		b, _ := json.Marshal(a)
		return fmt.Errorf("%s gives %s, alone it gives %s, the model says %s; inputs %s", a.Kind, clip(got, 300), clip(al, 300), clip(w, 300), clip(string(b), 1500))
	}
}
