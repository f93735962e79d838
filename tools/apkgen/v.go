package main

import (
	"bytes"
	"fmt"
	"runtime/debug"

	"github.com/avast/apkverifier"
)

// accept verifies the APK for the SDK range and checks the verdict; a panic is a failure.
func accept(name string, apk []byte, min, max int32, want bool) (res apkverifier.Result, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
			check(false, "%s: PANIC %v\n%s", name, r, debug.Stack())
		}
	}()
	res, err = apkverifier.VerifyWithSdkVersionReader(bytes.NewReader(apk), nil, min, max)
	fmt.Printf("%-36s scheme=%d certs=%d err=%v\n", name, res.SigningSchemeId, len(res.SignerCerts), err)
	check((err == nil) == want, "%s: err=%v, should be accepted: %v", name, err, want)
	return res, err
}

func demoFiles() []File {
	return []File{{"AndroidManifest.xml", []byte("not a real manifest")}, {"classes.dex", bytes.Repeat([]byte("x"), 3000)}, {"res/a", []byte("hello")}}
}

// aligned returns a ZIP whose central directory starts on a 4096 byte boundary, as verity needs.
func aligned(files ...File) []byte {
	for n := 0; ; n++ {
		z := Zip(append(append([]File{}, files...), File{"pad", make([]byte, n)})...)
		if cd, _ := cdOff(z); cd%4096 == 0 {
			return z
		}
	}
}
