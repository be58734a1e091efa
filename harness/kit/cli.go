package kit

import (
	"bytes"
	"context"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"
)

// Scratch makes a directory for one case; call the function to remove it.
func Scratch() (string, func(), error) {
	d, err := ioutil.TempDir("", "verif-cli-")
	if err != nil {
		return "", nil, err
	}
	return d, func() { os.RemoveAll(d) }, nil
}

// Config puts a configuration file, which sets nothing that the commands use, in
// dir (the home of the commands run by RunBin) and returns the arguments for it:
// none, as the default file, or given by name.
func Config(dir string, kind int) []string {
	switch kind % 4 {
	case 2:
		ioutil.WriteFile(filepath.Join(dir, ".goselect.yaml"), []byte("author: verif\n"), 0600)
	case 3:
		name := filepath.Join(dir, "conf.yaml")
		ioutil.WriteFile(name, []byte("author: verif\n"), 0600)
		return []string{"--config", name}
	}
	return nil
}

// RunBin runs a program built by check.sh in dir, with HOME there. The output
// is what it wrote to stdout and stderr.
func RunBin(dir, name string, args ...string) (string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(os.Getenv("VERIF_BIN"), name), args...)
	cmd.Dir = dir
	// The plotting library asks the go command for its fonts; with telemetry on,
	// that would leave files behind after the scratch directory is gone
	xdg := filepath.Join(os.Getenv("VERIF_BIN"), "xdg")
	cmd.Env = []string{"HOME=" + dir, "XDG_CONFIG_HOME=" + xdg, "PATH=" + os.Getenv("PATH"), "TMPDIR=" + dir}
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	err := cmd.Run()
	out := b.String()
	if err != nil {
		tail := out
		if len(tail) > 1500 {
			tail = tail[:500] + " [...] " + tail[len(tail)-1000:]
			if i := strings.Index(out, "panic: "); i >= 0 {
				tail = out[i:]
				if len(tail) > 1500 {
					tail = tail[:1500]
				}
			}
		}
		return out, fmt.Errorf("%s %s: %v: %s", name, strings.Join(args, " "), err, tail)
	}
	return out, nil
}

// CSVText renders the problem as CSV with the target at the given position.
// style: bit 0 blanks around values, bit 1 CRLF, bit 2 exponents, bit 3 a blank line at the end.
func CSVText(p *Prob, names []string, target, style int) string {
	nl := "\n"
	if style&2 != 0 {
		nl = "\r\n"
	}
	num := func(v float64, k int) string {
		s := strconv.FormatFloat(v, 'g', -1, 64)
		if style&4 != 0 && k%2 == 0 {
			s = strconv.FormatFloat(v, 'e', -1, 64)
		}
		if style&1 != 0 {
			s = strings.Repeat(" ", k%4) + s + strings.Repeat(" ", k%2)
		}
		return s
	}
	var b strings.Builder
	for i, n := range names {
		if i > 0 {
			b.WriteString(",")
		}
		b.WriteString("\"" + strings.ReplaceAll(n, "\"", "\"\"") + "\"")
	}
	b.WriteString(nl)
	for i := 0; i < p.N; i++ {
		x := 0
		for c := 0; c <= p.P; c++ {
			if c > 0 {
				b.WriteString(",")
			}
			if c == target {
				b.WriteString(num(p.Y[i], i+c))
			} else {
				b.WriteString(num(p.At(i, x), i+c))
				x++
			}
		}
		b.WriteString(nl)
	}
	if style&8 != 0 {
		b.WriteString(nl)
	}
	return b.String()
}

// CLINames are p+1 distinct names.
func CLINames(p, style int) []string {
	out := make([]string, p+1)
	mod := 17 // names are unique
	if p >= 17 {
		mod = 1009
	}
	for i := range out {
		out[i] = []string{"x", "feat ", "a,b", "é"}[style%4] + strconv.Itoa((i*5+3)%mod)
	}
	return out
}

// Spell places a file somewhere at or below dir, the working directory of the
// commands, and returns how to name it on a command line and where it is.
// where selects the place and the way of writing it; 0 is the full name.
func Spell(dir, name string, where int) (arg, full string) {
	sub := ""
	switch where % 8 {
	case 0:
		return filepath.Join(dir, name), filepath.Join(dir, name)
	case 1:
		return name, filepath.Join(dir, name)
	case 2:
		return "./" + name, filepath.Join(dir, name)
	case 3:
		sub = "sub/"
	case 4:
		sub = "sub dir.d/x/"
	case 5:
		name = "a b." + name
	case 6:
		sub = "sub/../other_1/"
		os.MkdirAll(filepath.Join(dir, "sub"), 0700)
	case 7:
		name = "100% é-" + name
	}
	full = filepath.Join(dir, sub, name)
	if err := os.MkdirAll(filepath.Dir(full), 0700); err != nil {
		panic(HarnessError{Err: err})
	}
	return sub + name, full
}
