package sym

import (
	"encoding/binary"
	"reflect"
	"syscall"
	"unsafe"
)

// patch redirects calls of the function from to the function to in this
// process, by overwriting its entry with a jump (amd64; used only when a
// counterexample that involves the operating system's answers is replayed).
func patch(from, to interface{}) {
	f := reflect.ValueOf(from).Pointer()
	t := reflect.ValueOf(to)
	// mov rdx, imm64 ; jmp [rdx]   (rdx is Go's closure context register)
	p := *(*uintptr)(unsafe.Pointer(&struct{ p unsafe.Pointer }{fnPtr(t)}))
	code := []byte{0x48, 0xBA, 0, 0, 0, 0, 0, 0, 0, 0, 0xFF, 0x22}
	binary.LittleEndian.PutUint64(code[2:], uint64(p))
	page := f &^ 4095
	n := (f + uintptr(len(code)) - page + 4095) &^ 4095
	mem := unsafe.Slice((*byte)(unsafe.Pointer(page)), int(n))
	if err := syscall.Mprotect(mem, syscall.PROT_READ|syscall.PROT_WRITE|syscall.PROT_EXEC); err != nil {
		return
	}
	copy(unsafe.Slice((*byte)(unsafe.Pointer(f)), len(code)), code)
	syscall.Mprotect(mem, syscall.PROT_READ|syscall.PROT_EXEC)
}

func fnPtr(v reflect.Value) unsafe.Pointer {
	x := v.Interface()
	return (*[2]unsafe.Pointer)(unsafe.Pointer(&x))[1]
}
