package core

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"sync"
	"sync/atomic"
	"syscall"

	"github.com/Comcast/scte35-go/pkg/scte35"
)

// A partner is this harness built for another platform and run in another
// environment, which is asked what it makes of a case.

// partnerArch is a platform this one can run, of another word size.
const partnerArch = "386"

// partnerLife is after how many questions another takes its place.
const partnerLife = 250

// Answer is what a partner does with a question.
var Answer func(question []byte) string

func partnerBin(scratch string) string { return filepath.Join(scratch, "partner") }

// BuildPartner builds the partner, for this platform where the other one
// cannot be run.
func BuildPartner(scratch string) error {
	for _, arch := range []string{partnerArch, ""} {
		build := exec.Command("go", "build", "-modfile="+os.Getenv("VERIF_MODFILE"), "-o", partnerBin(scratch), ".")
		build.Dir = os.Getenv("VERIF_HARNESS")
		build.Env = append(os.Environ(), "CGO_ENABLED=0")
		if arch != "" {
			build.Env = append(build.Env, "GOARCH="+arch)
		}
		if out, err := build.CombinedOutput(); err != nil {
			return fmt.Errorf("the partner does not build: %v\n%s", err, out)
		}
		if exec.Command(partnerBin(scratch), "list").Run() == nil {
			return nil
		}
	}
	return fmt.Errorf("the partner does not run")
}

var partner struct {
	sync.Mutex
	in    io.WriteCloser
	out   *bufio.Reader
	cmd   *exec.Cmd
	errb  tail
	arch  string
	start bool
	asked int
}

// AskPartner gives the partner's answer and its platform.
func AskPartner(question []byte) (answer, arch string) {
	p := &partner
	p.Lock()
	defer p.Unlock()
	if p.asked++; p.start && p.asked%partnerLife == 0 {
		p.start = false // it has seen less than this process
		_ = p.in.Close()
		_ = p.cmd.Wait()
	}
	if !p.start {
		p.start = true
		p.errb = tail{}
		p.cmd = exec.Command(partnerBin(Scratch()), "partner")
		p.cmd.Stderr = &p.errb
		// nothing about it is as here
		p.cmd.Env = []string{"GOMAXPROCS=1", "GOGC=25", "GOTRACEBACK=single", "LANG=tr_TR.UTF-8", "HOME=/nowhere", "PATH="}
		p.cmd.Dir = "/"
		p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		var err error
		p.in, err = p.cmd.StdinPipe()
		must(err)
		out, err := p.cmd.StdoutPipe()
		must(err)
		p.out = bufio.NewReader(out)
		must(p.cmd.Start())
		b, err := get(p.out)
		must(err)
		p.arch = string(b)
	}
	err := put(p.in, question)
	var b []byte
	if err == nil {
		b, err = get(p.out)
	}
	if err != nil {
		p.start = false
		_ = p.in.Close()
		err = p.cmd.Wait()
		return fmt.Sprintf("the process ended: %v %s", err, p.errb.String()), p.arch
	}
	return string(b), p.arch
}

func put(w io.Writer, b []byte) error {
	if _, err := w.Write(append(binary.BigEndian.AppendUint32(nil, uint32(len(b))), b...)); err != nil {
		return err
	}
	return nil
}

func get(r io.Reader) ([]byte, error) {
	var n [4]byte
	if _, err := io.ReadFull(r, n[:]); err != nil {
		return nil, err
	}
	b := make([]byte, binary.BigEndian.Uint32(n[:]))
	_, err := io.ReadFull(r, b)
	return b, err
}

// bePartner answers until there are no more questions.
func bePartner(arch string) {
	scte35.Logger = log.New(io.Discard, "", 0)
	in := bufio.NewReader(os.Stdin)
	must(put(os.Stdout, []byte(arch)))
	var start atomic.Int64
	watchdog(&start, hangCPU)
	for k := int64(1); ; k++ {
		q, err := get(in)
		if err != nil {
			os.Exit(0)
		}
		start.Store(k)
		a := Answer(q)
		start.Store(0)
		must(put(os.Stdout, []byte(a)))
	}
}
