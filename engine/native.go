package main

// Native replay: the same harness compiled by the go toolchain against the
// real code, with package sym reading recorded inputs instead of declaring
// symbolic ones.

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

type nativeResult struct {
	Label string   `json:"label"`
	Msg   string   `json:"msg"`
	Logs  []string `json:"logs"`
	Skip  bool     `json:"skip"` // an assumption did not hold natively
	Err   string   `json:"err"`
}

func (ctx *runCtx) nativeBuild(h *HarnessSpec) (string, error) {
	bin := filepath.Join(ctx.tmp, "native-"+strings.ReplaceAll(h.Pkg, "/", "_")+fmt.Sprint(h.FakeTime))
	if _, err := os.Stat(bin); err == nil {
		return bin, nil
	}
	rep := map[string]string{}
	for dst, src := range ctx.files {
		if !strings.Contains(dst, "/zzverif/") {
			rel, _ := filepath.Rel(repoDir, filepath.Dir(dst))
			if rel != h.Pkg && !strings.HasPrefix(filepath.Base(dst), "zz_verif_export") {
				continue
			}
		}
		rep[dst] = src
	}
	// native package sym in place of the declarations
	rep[filepath.Join(repoDir, "zzverif/sym/sym.go")] = filepath.Join(verifDir, "harness/native/sym.go.txt")
	if h.FakeTime {
		if err := ctx.fakeTime(rep); err != nil {
			return "", err
		}
	}
	// the driver
	ip := h.importPath()
	pk := ctx.prog.pkgs[ip]
	var sb strings.Builder
	fmt.Fprintf(&sb, "package main\n\nimport (\n\tsym %q\n\th %q\n)\n\nfunc main() {\n\tsym.Main(map[string]func([]int){\n", symPkg, ip)
	for i := range ctx.spec.Harnesses {
		x := &ctx.spec.Harnesses[i]
		if x.Pkg != h.Pkg || !x.Native || x.FakeTime != h.FakeTime {
			continue
		}
		fn := pk.Func(x.Func)
		if fn == nil {
			continue
		}
		var as []string
		for j := range fn.Params {
			as = append(as, fmt.Sprintf("a[%d]", j))
		}
		fmt.Fprintf(&sb, "\t\t%q: func(a []int) { h.%s(%s) },\n", x.Func, x.Func, strings.Join(as, ", "))
	}
	sb.WriteString("\t})\n}\n")
	drv := filepath.Join(ctx.tmp, "driver-"+filepath.Base(bin)+".go")
	if err := os.WriteFile(drv, []byte(sb.String()), 0o644); err != nil {
		return "", err
	}
	rep[filepath.Join(repoDir, "zzverif/replaymain/main.go")] = drv
	ov := filepath.Join(ctx.tmp, "overlay-"+filepath.Base(bin)+".json")
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	if err := os.WriteFile(ov, b, 0o644); err != nil {
		return "", err
	}
	cmd := exec.Command("go", "build", "-overlay", ov, "-modfile", filepath.Join(ctx.tmp, "go.mod"), "-o", bin, "./zzverif/replaymain")
	cmd.Dir = repoDir
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build: %v\n%s", err, out)
	}
	return bin, nil
}

// fakeTime replaces the clock of the repository's packages: every import of
// "time" becomes zzverif/vtime, which takes Now from the recorded inputs.
func (ctx *runCtx) fakeTime(rep map[string]string) error {
	i := 0
	srcs := map[string]string{}
	filepath.Walk(filepath.Join(repoDir, "pkg"), func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			srcs[p] = p
		}
		return nil
	})
	for dst, src := range rep {
		if !strings.Contains(dst, "/zzverif/vtime/") && !strings.Contains(dst, "/zzverif/sym/") {
			srcs[dst] = src
		}
	}
	one := func(dst, p string) error {
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, nil, parser.ParseComments)
		if err != nil {
			return err
		}
		hit := false
		for _, im := range f.Imports {
			if im.Path.Value == `"time"` {
				im.Path.Value = `"` + repoModule + `/zzverif/vtime"`
				if im.Name == nil {
					im.Name = ast.NewIdent("time")
				}
				hit = true
			}
		}
		if !hit {
			return nil
		}
		i++
		out := filepath.Join(ctx.tmp, fmt.Sprintf("vt%d_%s", i, filepath.Base(p)))
		w, err := os.Create(out)
		if err != nil {
			return err
		}
		defer w.Close()
		rep[dst] = out
		return format.Node(w, fs, f)
	}
	for dst, src := range srcs {
		if err := one(dst, src); err != nil {
			return err
		}
	}
	return nil
}

// nativeRun executes a harness on recorded input vectors.
func (ctx *runCtx) nativeRun(h *HarnessSpec, as []int64, vecs [][]InputVal) []nativeResult {
	fail := func(err error) []nativeResult {
		r := make([]nativeResult, len(vecs))
		for i := range r {
			r[i].Err = err.Error()
		}
		return r
	}
	bin, err := ctx.nativeBuild(h)
	if err != nil {
		return fail(err)
	}
	var res []nativeResult
	for _, v := range vecs {
		in, _ := json.Marshal(map[string]any{"func": h.Func, "args": as, "inputs": v})
		cmd := exec.Command(bin)
		cmd.Stdin = strings.NewReader(string(in))
		var out, eb strings.Builder
		cmd.Stdout = &out
		cmd.Stderr = &eb
		cmd.Dir = ctx.tmp
		if err := cmd.Start(); err != nil {
			return fail(err)
		}
		t := time.AfterFunc(30*time.Second, func() { cmd.Process.Kill() })
		err := cmd.Wait()
		t.Stop()
		var r nativeResult
		if i := strings.LastIndex(out.String(), "RESULT "); i >= 0 {
			json.Unmarshal([]byte(out.String()[i+7:]), &r)
		} else {
			r.Err = fmt.Sprintf("%v: %.2000s", err, eb.String())
			switch {
			case strings.Contains(eb.String(), "all goroutines are asleep - deadlock"):
				r = nativeResult{Label: "deadlock"}
			case strings.Contains(eb.String(), "panic: "):
				r = nativeResult{Label: "panic", Msg: eb.String()}
			}
		}
		res = append(res, r)
	}
	return res
}
