package core

import (
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"syscall"
	"time"
	"unsafe"
)

const progWords = 8 * 4

// MapProgress maps the shared progress file.
func MapProgress(path string) {
	f, err := os.OpenFile(path, os.O_RDWR, 0)
	if err != nil {
		return
	}
	defer f.Close()
	b, err := syscall.Mmap(int(f.Fd()), 0, progWords*8, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return
	}
	Progress = unsafe.Slice((*uint64)(unsafe.Pointer(&b[0])), progWords)
}

const hangAfter = 90 * time.Second

// Supervise runs the exploration in a child process and turns a crash (fatal
// error, stack or memory exhaustion) or hang of a case into a violation of the
// property, after confirming it by running that case alone.
func Supervise(c *Check, tier string) int {
	f, err := os.CreateTemp("", "inimc-progress-*")
	if err != nil {
		fmt.Println("progress:", err)
		return 3
	}
	_ = f.Truncate(progWords * 8)
	f.Close()
	defer os.Remove(f.Name())
	MapProgress(f.Name())

	base := os.TempDir()
	if st, err := os.Stat("/dev/shm"); err == nil && st.IsDir() {
		base = "/dev/shm"
	}
	scratch, err := os.MkdirTemp(base, "inimc-scratch-")
	if err != nil {
		if scratch, err = os.MkdirTemp("", "inimc-scratch-"); err != nil {
			fmt.Println("scratch:", err)
			return 3
		}
	}
	defer os.RemoveAll(scratch)
	os.Setenv("INIMC_SCRATCH", scratch)

	code, hung := runChild(c.ID, tier, f.Name(), nil)
	if !hung && (code == 0 || code == 1) {
		return code
	}
	// Which cases were in flight?
	type suspect struct{ space, idx uint64 }
	var sus []suspect
	for k := 0; k < 8; k++ {
		if s := Progress[k*4+1]; s != 0 {
			sus = append(sus, suspect{s - 1, Progress[k*4+2]})
		}
	}
	spaces := c.Spaces(tier)
	for _, s := range sus {
		if int(s.space) >= len(spaces) {
			continue
		}
		name := spaces[s.space].Name
		confirmed := 0
		what := ""
		for r := 0; r < 3; r++ {
			c1, h1 := runChild(c.ID, tier, f.Name(), []string{name, strconv.FormatUint(s.idx, 10)})
			switch {
			case h1:
				confirmed++
				what = "does not terminate (confirmed alone, 90 s limit)"
			case c1 != 0 && c1 != 1:
				confirmed++
				what = fmt.Sprintf("crashes the process (exit %d)", c1)
			}
			if confirmed <= r {
				break
			}
			if h1 && r == 1 {
				confirmed = 3
				break
			}
		}
		if confirmed == 3 {
			fl := &Fail{Key: fmt.Sprintf("%s#%d", name, s.idx), Input: fmt.Sprintf("case %d of space %s", s.idx, name), Want: "terminates normally", Got: what}
			WriteEvidence(c.ID, map[string]interface{}{
				"property": c.ID, "tier": tier, "seed": 1, "level": "model_checking",
				"coverage":    map[string]interface{}{"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []string{fl.Input + " " + what}, "exhaustive": false},
				"assumptions": c.Assumptions, "wall_s": 0, "violations": 1,
			})
			ReportViolation(c.ID, tier, name, s.idx, s.idx, fl)
			return 1
		}
	}
	fmt.Printf("exploration process ended with code %d (hung=%v) and the failure could not be attributed to a case\n", code, hung)
	return 3
}

func runChild(id, tier, progress string, one []string) (int, bool) {
	exe, err := os.Executable()
	if err != nil {
		return 3, false
	}
	args := []string{"-property", id, "-tier", tier}
	if one != nil {
		args = append(args, "-space", one[0], "-index", one[1])
	}
	cmd := exec.Command(exe, args...)
	cmd.Env = append(os.Environ(), "INIMC_CHILD="+progress)
	cmd.Stdout = os.Stdout
	cmd.Stderr = os.Stderr
	if one != nil {
		cmd.Stdout, cmd.Stderr = nil, nil
	}
	for i := range Progress {
		Progress[i] = 0
	}
	if err := cmd.Start(); err != nil {
		return 3, false
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	last := make([]uint64, progWords)
	since := time.Now()
	begin := time.Now()
	var stuck [8]time.Time
	_ = since
	for {
		select {
		case err := <-done:
			if err == nil {
				return 0, false
			}
			if ee, ok := err.(*exec.ExitError); ok {
				if ee.ExitCode() >= 0 {
					return ee.ExitCode(), false
				}
				return 137, false
			}
			return 3, false
		case <-time.After(time.Second):
		}
		if one != nil {
			if time.Since(begin) > hangAfter {
				_ = cmd.Process.Kill()
				<-done
				return 0, true
			}
			continue
		}
		hang := false
		for k := 0; k < 8; k++ {
			if Progress[k*4+1] == 0 || Progress[k*4] != last[k*4] {
				stuck[k] = time.Now()
				last[k*4] = Progress[k*4]
				continue
			}
			if time.Since(stuck[k]) > hangAfter {
				hang = true
			}
		}
		if hang {
			_ = cmd.Process.Kill()
			<-done
			// keep only the stuck workers as suspects
			for k := 0; k < 8; k++ {
				if time.Since(stuck[k]) <= hangAfter {
					Progress[k*4+1] = 0
				}
			}
			return 0, true
		}
	}
}

// LimitMemory caps the address space of this process so that runaway
// allocation ends the exploration process and not the sandbox.
func LimitMemory(bytes uint64) {
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: bytes, Max: bytes})
}

// ScratchDir returns a fresh directory inside the scratch area, which the
// supervising process removes at the end.
func ScratchDir() string {
	d, err := os.MkdirTemp(os.Getenv("INIMC_SCRATCH"), "w-")
	if err != nil {
		panic(err)
	}
	return d
}
