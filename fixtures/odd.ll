
target datalayout = "e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-f80:128-n8:16:32:64-S128"
target triple = "x86_64-pc-linux-gnu"

%"class.std::__1::vector" = type { i32*, i32*, i32* }

; Function Attrs: noinline nounwind optnone uwtable
define dso_local void @_Z4bumpRi(i32* nonnull align 4 dereferenceable(4) %r) {
entry:
  %r.addr = alloca i32*, align 8
  store i32* %r, i32** %r.addr, align 8
  %i = load i32*, i32** %r.addr, align 8
  %i1 = load i32, i32* %i, align 4
  %add = add nsw i32 %i1, 1
  %i2 = load i32*, i32** %r.addr, align 8
  store i32 %add, i32* %i2, align 4
  ret void
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local void @_Z8exchangeRiS_(i32* nonnull align 4 dereferenceable(4) %a, i32* nonnull align 4 dereferenceable(4) %b) {
entry:
  %a.addr = alloca i32*, align 8
  %b.addr = alloca i32*, align 8
  %t = alloca i32, align 4
  store i32* %a, i32** %a.addr, align 8
  store i32* %b, i32** %b.addr, align 8
  %i = load i32*, i32** %a.addr, align 8
  %i1 = load i32, i32* %i, align 4
  store i32 %i1, i32* %t, align 4
  %i2 = load i32*, i32** %b.addr, align 8
  %i3 = load i32, i32* %i2, align 4
  %i4 = load i32*, i32** %a.addr, align 8
  store i32 %i3, i32* %i4, align 4
  %i5 = load i32, i32* %t, align 4
  %i6 = load i32*, i32** %b.addr, align 8
  store i32 %i5, i32* %i6, align 4
  ret void
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local void @_Z3addRNSt3__16vectorIiNS_9allocatorIiEEEEi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %v, i32 %n) {
entry:
  %v.addr = alloca %"class.std::__1::vector"*, align 8
  %n.addr = alloca i32, align 4
  store %"class.std::__1::vector"* %v, %"class.std::__1::vector"** %v.addr, align 8
  store i32 %n, i32* %n.addr, align 4
  %i = load %"class.std::__1::vector"*, %"class.std::__1::vector"** %v.addr, align 8
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %i, i32* nonnull align 4 dereferenceable(4) %n.addr)
  ret void
}

declare void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24), i32* nonnull align 4 dereferenceable(4))

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z4halfi(i32 %x) {
entry:
  %x.addr = alloca i32, align 4
  store i32 %x, i32* %x.addr, align 4
  %i = load i32, i32* %x.addr, align 4
  %div = sdiv i32 %i, 2
  ret i32 %div
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local void @_Z4fillRNSt3__16vectorIiNS_9allocatorIiEEEES4_(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %v, %"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %w) {
entry:
  %v.addr = alloca %"class.std::__1::vector"*, align 8
  %w.addr = alloca %"class.std::__1::vector"*, align 8
  %i = alloca i32, align 4
  store %"class.std::__1::vector"* %v, %"class.std::__1::vector"** %v.addr, align 8
  store %"class.std::__1::vector"* %w, %"class.std::__1::vector"** %w.addr, align 8
  store i32 0, i32* %i, align 4
  br label %for.cond

for.cond:                                         ; preds = %for.inc, %entry
  %i1 = load i32, i32* %i, align 4
  %conv = sext i32 %i1 to i64
  %i2 = load %"class.std::__1::vector"*, %"class.std::__1::vector"** %w.addr, align 8
  %call = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %i2)
  %cmp = icmp ult i64 %conv, %call
  br i1 %cmp, label %bb, label %bb7

for.body:                                         ; preds = %bb
  %i3 = load %"class.std::__1::vector"*, %"class.std::__1::vector"** %v.addr, align 8
  %i4 = load %"class.std::__1::vector"*, %"class.std::__1::vector"** %w.addr, align 8
  %i5 = load i32, i32* %i, align 4
  %conv1 = sext i32 %i5 to i64
  %call2 = call nonnull align 4 dereferenceable(4) i32* @_ZNSt3__16vectorIiNS_9allocatorIiEEEixEm(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %i4, i64 %conv1)
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %i3, i32* nonnull align 4 dereferenceable(4) %call2)
  br label %for.inc

for.inc:                                          ; preds = %for.body
  %i6 = load i32, i32* %i, align 4
  %add = add nsw i32 %i6, 1
  store i32 %add, i32* %i, align 4
  br label %for.cond

for.end:                                          ; preds = %bb7
  ret void

bb:                                               ; preds = %for.cond
  br label %for.body

bb7:                                              ; preds = %for.cond
  br label %for.end
}

declare i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24))

declare nonnull align 4 dereferenceable(4) i32* @_ZNSt3__16vectorIiNS_9allocatorIiEEEixEm(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24), i64)

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z2o1i(i32 %x) {
entry:
  %x.addr = alloca i32, align 4
  %s = alloca i32, align 4
  %r = alloca i32*, align 8
  store i32 %x, i32* %x.addr, align 4
  %i = load i32, i32* %x.addr, align 4
  store i32 %i, i32* %s, align 4
  store i32* %s, i32** %r, align 8
  %i1 = load i32, i32* %s, align 4
  %add = add nsw i32 %i1, 1
  store i32 %add, i32* %s, align 4
  %i2 = load i32*, i32** %r, align 8
  %i3 = load i32, i32* %i2, align 4
  ret i32 %i3
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z2o2i(i32 %x) {
entry:
  %x.addr = alloca i32, align 4
  %s = alloca i32, align 4
  %p = alloca i32*, align 8
  store i32 %x, i32* %x.addr, align 4
  %i = load i32, i32* %x.addr, align 4
  store i32 %i, i32* %s, align 4
  store i32* %s, i32** %p, align 8
  %i1 = load i32, i32* %x.addr, align 4
  %add = add nsw i32 %i1, 3
  %i2 = load i32*, i32** %p, align 8
  store i32 %add, i32* %i2, align 4
  %i3 = load i32, i32* %s, align 4
  ret i32 %i3
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z2o3NSt3__16vectorIiNS_9allocatorIiEEEEi(%"class.std::__1::vector"* %l, i32 %n) {
entry:
  %n.addr = alloca i32, align 4
  %r = alloca %"class.std::__1::vector"*, align 8
  store i32 %n, i32* %n.addr, align 4
  store %"class.std::__1::vector"* %l, %"class.std::__1::vector"** %r, align 8
  %i = load %"class.std::__1::vector"*, %"class.std::__1::vector"** %r, align 8
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %i, i32* nonnull align 4 dereferenceable(4) %n.addr)
  %call = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l)
  %conv = trunc i64 %call to i32
  ret i32 %conv
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z2o4NSt3__16vectorIiNS_9allocatorIiEEEEi(%"class.std::__1::vector"* %l, i32 %n) {
entry:
  %n.addr = alloca i32, align 4
  %r = alloca %"class.std::__1::vector"*, align 8
  store i32 %n, i32* %n.addr, align 4
  store %"class.std::__1::vector"* %l, %"class.std::__1::vector"** %r, align 8
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l, i32* nonnull align 4 dereferenceable(4) %n.addr)
  %i = load %"class.std::__1::vector"*, %"class.std::__1::vector"** %r, align 8
  %call = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %i)
  %conv = trunc i64 %call to i32
  ret i32 %conv
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local void @_Z2o5i(%"class.std::__1::vector"* noalias sret align 8 %agg.result, i32 %n) {
entry:
  %result.ptr = alloca i8*, align 8
  %n.addr = alloca i32, align 4
  %nrvo = alloca i1, align 1
  %i = bitcast %"class.std::__1::vector"* %agg.result to i8*
  store i8* %i, i8** %result.ptr, align 8
  store i32 %n, i32* %n.addr, align 4
  store i1 false, i1* %nrvo, align 1
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEEC1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %n.addr)
  %i1 = load i32, i32* %n.addr, align 4
  %add = add nsw i32 %i1, 7
  %call = call nonnull align 4 dereferenceable(4) i32* @_ZNSt3__16vectorIiNS_9allocatorIiEEEixEm(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i64 0)
  store i32 %add, i32* %call, align 4
  store i1 true, i1* %nrvo, align 1
  %nrvo.val = load i1, i1* %nrvo, align 1
  br i1 %nrvo.val, label %bb, label %bb2

nrvo.unused:                                      ; preds = %bb2
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEED1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  br label %nrvo.skipdtor

nrvo.skipdtor:                                    ; preds = %bb, %nrvo.unused
  ret void

bb:                                               ; preds = %entry
  br label %nrvo.skipdtor

bb2:                                              ; preds = %entry
  br label %nrvo.unused
}

declare void @_ZNSt3__16vectorIiNS_9allocatorIiEEEC1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24)) unnamed_addr

; Function Attrs: nounwind
declare void @_ZNSt3__16vectorIiNS_9allocatorIiEEED1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24)) unnamed_addr

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z2o6NSt3__16vectorIiNS_9allocatorIiEEEEi(%"class.std::__1::vector"* %l, i32 %n) {
entry:
  %retval = alloca i32, align 4
  %n.addr = alloca i32, align 4
  store i32 %n, i32* %n.addr, align 4
  %call = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l)
  %cmp = icmp ugt i64 %call, 0
  br i1 %cmp, label %bb, label %bb3

if.then:                                          ; preds = %bb
  %i = load i32, i32* %n.addr, align 4
  %call1 = call nonnull align 4 dereferenceable(4) i32* @_ZNSt3__16vectorIiNS_9allocatorIiEEEixEm(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l, i64 0)
  store i32 %i, i32* %call1, align 4
  %call2 = call nonnull align 4 dereferenceable(4) i32* @_ZNSt3__16vectorIiNS_9allocatorIiEEEixEm(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l, i64 0)
  %i1 = load i32, i32* %call2, align 4
  store i32 %i1, i32* %retval, align 4
  br label %return

if.end:                                           ; preds = %bb3
  store i32 0, i32* %retval, align 4
  br label %return

return:                                           ; preds = %if.end, %if.then
  %i2 = load i32, i32* %retval, align 4
  ret i32 %i2

bb:                                               ; preds = %entry
  br label %if.then

bb3:                                              ; preds = %entry
  br label %if.end
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local void @_Z2o7i(%"class.std::__1::vector"* noalias sret align 8 %agg.result, i32 %n) {
entry:
  %result.ptr = alloca i8*, align 8
  %n.addr = alloca i32, align 4
  %nrvo = alloca i1, align 1
  %o = alloca %"class.std::__1::vector"*, align 8
  %ref.tmp = alloca i32, align 4
  %i = bitcast %"class.std::__1::vector"* %agg.result to i8*
  store i8* %i, i8** %result.ptr, align 8
  store i32 %n, i32* %n.addr, align 4
  store i1 false, i1* %nrvo, align 1
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEEC1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  store %"class.std::__1::vector"* %agg.result, %"class.std::__1::vector"** %o, align 8
  %i1 = load %"class.std::__1::vector"*, %"class.std::__1::vector"** %o, align 8
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %i1, i32* nonnull align 4 dereferenceable(4) %n.addr)
  store i32 1, i32* %ref.tmp, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp)
  store i1 true, i1* %nrvo, align 1
  %nrvo.val = load i1, i1* %nrvo, align 1
  br i1 %nrvo.val, label %bb, label %bb2

nrvo.unused:                                      ; preds = %bb2
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEED1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  br label %nrvo.skipdtor

nrvo.skipdtor:                                    ; preds = %bb, %nrvo.unused
  ret void

bb:                                               ; preds = %entry
  br label %nrvo.skipdtor

bb2:                                              ; preds = %entry
  br label %nrvo.unused
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local void @_Z2o8i(%"class.std::__1::vector"* noalias sret align 8 %agg.result, i32 %n) {
entry:
  %result.ptr = alloca i8*, align 8
  %n.addr = alloca i32, align 4
  %nrvo = alloca i1, align 1
  %o = alloca %"class.std::__1::vector"*, align 8
  %i = alloca i32, align 4
  %i1 = bitcast %"class.std::__1::vector"* %agg.result to i8*
  store i8* %i1, i8** %result.ptr, align 8
  store i32 %n, i32* %n.addr, align 4
  store i1 false, i1* %nrvo, align 1
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEEC1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  store %"class.std::__1::vector"* %agg.result, %"class.std::__1::vector"** %o, align 8
  store i32 0, i32* %i, align 4
  br label %for.cond

for.cond:                                         ; preds = %for.inc, %entry
  %i2 = load i32, i32* %i, align 4
  %i3 = load i32, i32* %n.addr, align 4
  %cmp = icmp slt i32 %i2, %i3
  br i1 %cmp, label %bb, label %bb6

for.body:                                         ; preds = %bb
  %i4 = load %"class.std::__1::vector"*, %"class.std::__1::vector"** %o, align 8
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %i4, i32* nonnull align 4 dereferenceable(4) %i)
  br label %for.inc

for.inc:                                          ; preds = %for.body
  %i5 = load i32, i32* %i, align 4
  %add = add nsw i32 %i5, 1
  store i32 %add, i32* %i, align 4
  br label %for.cond

for.end:                                          ; preds = %bb6
  store i1 true, i1* %nrvo, align 1
  %nrvo.val = load i1, i1* %nrvo, align 1
  br i1 %nrvo.val, label %bb7, label %bb8

nrvo.unused:                                      ; preds = %bb8
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEED1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  br label %nrvo.skipdtor

nrvo.skipdtor:                                    ; preds = %bb7, %nrvo.unused
  ret void

bb:                                               ; preds = %for.cond
  br label %for.body

bb6:                                              ; preds = %for.cond
  br label %for.end

bb7:                                              ; preds = %for.end
  br label %nrvo.skipdtor

bb8:                                              ; preds = %for.end
  br label %nrvo.unused
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z2o9i(i32 %x) {
entry:
  %x.addr = alloca i32, align 4
  %s = alloca i32, align 4
  store i32 %x, i32* %x.addr, align 4
  %i = load i32, i32* %x.addr, align 4
  store i32 %i, i32* %s, align 4
  call void @_Z4bumpRi(i32* nonnull align 4 dereferenceable(4) %s)
  %i1 = load i32, i32* %s, align 4
  ret i32 %i1
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z3o10NSt3__16vectorIiNS_9allocatorIiEEEEi(%"class.std::__1::vector"* %l, i32 %n) {
entry:
  %n.addr = alloca i32, align 4
  store i32 %n, i32* %n.addr, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l, i32* nonnull align 4 dereferenceable(4) %n.addr)
  %call = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l)
  %conv = trunc i64 %call to i32
  ret i32 %conv
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z3o11ii(i32 %x, i32 %y) {
entry:
  %x.addr = alloca i32, align 4
  %y.addr = alloca i32, align 4
  store i32 %x, i32* %x.addr, align 4
  store i32 %y, i32* %y.addr, align 4
  call void @_Z8exchangeRiS_(i32* nonnull align 4 dereferenceable(4) %x.addr, i32* nonnull align 4 dereferenceable(4) %y.addr)
  %i = load i32, i32* %x.addr, align 4
  %i1 = load i32, i32* %y.addr, align 4
  %sub = sub nsw i32 %i, %i1
  ret i32 %sub
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z3o12ii(i32 %x, i32 %y) {
entry:
  %x.addr = alloca i32, align 4
  %y.addr = alloca i32, align 4
  %p = alloca i32*, align 8
  store i32 %x, i32* %x.addr, align 4
  store i32 %y, i32* %y.addr, align 4
  store i32* %x.addr, i32** %p, align 8
  %i = load i32, i32* %x.addr, align 4
  %i1 = load i32, i32* %y.addr, align 4
  %cmp = icmp slt i32 %i, %i1
  br i1 %cmp, label %bb, label %bb6

if.then:                                          ; preds = %bb
  store i32* %y.addr, i32** %p, align 8
  br label %if.end

if.end:                                           ; preds = %bb6, %if.then
  %i2 = load i32*, i32** %p, align 8
  %i3 = load i32, i32* %i2, align 4
  %add = add nsw i32 %i3, 1
  %i4 = load i32*, i32** %p, align 8
  store i32 %add, i32* %i4, align 4
  %i5 = load i32, i32* %x.addr, align 4
  ret i32 %i5

bb:                                               ; preds = %entry
  br label %if.then

bb6:                                              ; preds = %entry
  br label %if.end
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z3o13NSt3__16vectorIiNS_9allocatorIiEEEE(%"class.std::__1::vector"* %l) {
entry:
  %s = alloca i32, align 4
  %r = alloca i32*, align 8
  %i = alloca i32, align 4
  store i32 0, i32* %s, align 4
  store i32* %s, i32** %r, align 8
  store i32 0, i32* %i, align 4
  br label %while.cond

while.cond:                                       ; preds = %while.body, %entry
  %i1 = load i32, i32* %i, align 4
  %conv = sext i32 %i1 to i64
  %call = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l)
  %cmp = icmp ult i64 %conv, %call
  br i1 %cmp, label %bb, label %bb9

while.body:                                       ; preds = %bb
  %i2 = load i32*, i32** %r, align 8
  %i3 = load i32, i32* %i2, align 4
  %i4 = load i32, i32* %i, align 4
  %conv1 = sext i32 %i4 to i64
  %call2 = call nonnull align 4 dereferenceable(4) i32* @_ZNSt3__16vectorIiNS_9allocatorIiEEEixEm(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l, i64 %conv1)
  %i5 = load i32, i32* %call2, align 4
  %add = add nsw i32 %i3, %i5
  %i6 = load i32*, i32** %r, align 8
  store i32 %add, i32* %i6, align 4
  %i7 = load i32, i32* %i, align 4
  %add3 = add nsw i32 %i7, 1
  store i32 %add3, i32* %i, align 4
  br label %while.cond

while.end:                                        ; preds = %bb9
  %i8 = load i32, i32* %s, align 4
  ret i32 %i8

bb:                                               ; preds = %while.cond
  br label %while.body

bb9:                                              ; preds = %while.cond
  br label %while.end
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local void @_Z3o14i(%"class.std::__1::vector"* noalias sret align 8 %agg.result, i32 %n) {
entry:
  %result.ptr = alloca i8*, align 8
  %n.addr = alloca i32, align 4
  %nrvo = alloca i1, align 1
  %ref.tmp = alloca i32, align 4
  %i = bitcast %"class.std::__1::vector"* %agg.result to i8*
  store i8* %i, i8** %result.ptr, align 8
  store i32 %n, i32* %n.addr, align 4
  store i1 false, i1* %nrvo, align 1
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEEC1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  %i1 = load i32, i32* %n.addr, align 4
  call void @_Z3addRNSt3__16vectorIiNS_9allocatorIiEEEEi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32 %i1)
  store i32 1, i32* %ref.tmp, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp)
  store i1 true, i1* %nrvo, align 1
  %nrvo.val = load i1, i1* %nrvo, align 1
  br i1 %nrvo.val, label %bb, label %bb2

nrvo.unused:                                      ; preds = %bb2
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEED1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  br label %nrvo.skipdtor

nrvo.skipdtor:                                    ; preds = %bb, %nrvo.unused
  ret void

bb:                                               ; preds = %entry
  br label %nrvo.skipdtor

bb2:                                              ; preds = %entry
  br label %nrvo.unused
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z3o15i(i32 %x) {
entry:
  %x.addr = alloca i32, align 4
  store i32 %x, i32* %x.addr, align 4
  %i = load i32, i32* %x.addr, align 4
  %call = call i32 @_Z4halfi(i32 %i)
  %add = add nsw i32 %call, 1
  ret i32 %add
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local void @_Z3o16i(%"class.std::__1::vector"* noalias sret align 8 %agg.result, i32 %n) {
entry:
  %result.ptr = alloca i8*, align 8
  %n.addr = alloca i32, align 4
  %nrvo = alloca i1, align 1
  %ref.tmp = alloca i32, align 4
  %i = bitcast %"class.std::__1::vector"* %agg.result to i8*
  store i8* %i, i8** %result.ptr, align 8
  store i32 %n, i32* %n.addr, align 4
  store i1 false, i1* %nrvo, align 1
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEEC1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %n.addr)
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE5clearEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  store i32 1, i32* %ref.tmp, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp)
  store i1 true, i1* %nrvo, align 1
  %nrvo.val = load i1, i1* %nrvo, align 1
  br i1 %nrvo.val, label %bb, label %bb1

nrvo.unused:                                      ; preds = %bb1
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEED1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  br label %nrvo.skipdtor

nrvo.skipdtor:                                    ; preds = %bb, %nrvo.unused
  ret void

bb:                                               ; preds = %entry
  br label %nrvo.skipdtor

bb1:                                              ; preds = %entry
  br label %nrvo.unused
}

declare void @_ZNSt3__16vectorIiNS_9allocatorIiEEE5clearEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24))

; Function Attrs: noinline nounwind optnone uwtable
define dso_local void @_Z3o17i(%"class.std::__1::vector"* noalias sret align 8 %agg.result, i32 %n) {
entry:
  %result.ptr = alloca i8*, align 8
  %n.addr = alloca i32, align 4
  %nrvo = alloca i1, align 1
  %ref.tmp = alloca i32, align 4
  %i = bitcast %"class.std::__1::vector"* %agg.result to i8*
  store i8* %i, i8** %result.ptr, align 8
  store i32 %n, i32* %n.addr, align 4
  store i1 false, i1* %nrvo, align 1
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEEC1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %n.addr)
  %i1 = load i32, i32* %n.addr, align 4
  %add = add nsw i32 %i1, 1
  store i32 %add, i32* %ref.tmp, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp)
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE8pop_backEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  store i1 true, i1* %nrvo, align 1
  %nrvo.val = load i1, i1* %nrvo, align 1
  br i1 %nrvo.val, label %bb, label %bb2

nrvo.unused:                                      ; preds = %bb2
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEED1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  br label %nrvo.skipdtor

nrvo.skipdtor:                                    ; preds = %bb, %nrvo.unused
  ret void

bb:                                               ; preds = %entry
  br label %nrvo.skipdtor

bb2:                                              ; preds = %entry
  br label %nrvo.unused
}

declare void @_ZNSt3__16vectorIiNS_9allocatorIiEEE8pop_backEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24))

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z3o18NSt3__16vectorIiNS_9allocatorIiEEEEi(%"class.std::__1::vector"* %l, i32 %n) {
entry:
  %n.addr = alloca i32, align 4
  %ref.tmp = alloca i32, align 4
  store i32 %n, i32* %n.addr, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l, i32* nonnull align 4 dereferenceable(4) %n.addr)
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE5clearEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l)
  store i32 1, i32* %ref.tmp, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l, i32* nonnull align 4 dereferenceable(4) %ref.tmp)
  %call = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l)
  %conv = trunc i64 %call to i32
  ret i32 %conv
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local void @_Z3o19i(%"class.std::__1::vector"* noalias sret align 8 %agg.result, i32 %n) {
entry:
  %result.ptr = alloca i8*, align 8
  %n.addr = alloca i32, align 4
  %nrvo = alloca i1, align 1
  %i = alloca i32, align 4
  %i1 = bitcast %"class.std::__1::vector"* %agg.result to i8*
  store i8* %i1, i8** %result.ptr, align 8
  store i32 %n, i32* %n.addr, align 4
  store i1 false, i1* %nrvo, align 1
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEEC1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  store i32 0, i32* %i, align 4
  br label %for.cond

for.cond:                                         ; preds = %for.inc, %entry
  %i2 = load i32, i32* %i, align 4
  %i3 = load i32, i32* %n.addr, align 4
  %cmp = icmp slt i32 %i2, %i3
  br i1 %cmp, label %bb, label %bb7

for.body:                                         ; preds = %bb
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %i)
  %i4 = load i32, i32* %n.addr, align 4
  %i5 = load i32, i32* %i, align 4
  %conv = sext i32 %i5 to i64
  %call = call nonnull align 4 dereferenceable(4) i32* @_ZNSt3__16vectorIiNS_9allocatorIiEEEixEm(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i64 %conv)
  store i32 %i4, i32* %call, align 4
  br label %for.inc

for.inc:                                          ; preds = %for.body
  %i6 = load i32, i32* %i, align 4
  %add = add nsw i32 %i6, 1
  store i32 %add, i32* %i, align 4
  br label %for.cond

for.end:                                          ; preds = %bb7
  store i1 true, i1* %nrvo, align 1
  %nrvo.val = load i1, i1* %nrvo, align 1
  br i1 %nrvo.val, label %bb8, label %bb9

nrvo.unused:                                      ; preds = %bb9
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEED1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  br label %nrvo.skipdtor

nrvo.skipdtor:                                    ; preds = %bb8, %nrvo.unused
  ret void

bb:                                               ; preds = %for.cond
  br label %for.body

bb7:                                              ; preds = %for.cond
  br label %for.end

bb8:                                              ; preds = %for.end
  br label %nrvo.skipdtor

bb9:                                              ; preds = %for.end
  br label %nrvo.unused
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z3o20i(i32 %x) {
entry:
  %x.addr = alloca i32, align 4
  %s = alloca i32, align 4
  %i = alloca i32, align 4
  store i32 %x, i32* %x.addr, align 4
  %i1 = load i32, i32* %x.addr, align 4
  store i32 %i1, i32* %s, align 4
  store i32 0, i32* %i, align 4
  br label %for.cond

for.cond:                                         ; preds = %for.inc, %entry
  %i2 = load i32, i32* %i, align 4
  %i3 = load i32, i32* %x.addr, align 4
  %cmp = icmp slt i32 %i2, %i3
  br i1 %cmp, label %bb, label %bb6

for.body:                                         ; preds = %bb
  call void @_Z4bumpRi(i32* nonnull align 4 dereferenceable(4) %s)
  br label %for.inc

for.inc:                                          ; preds = %for.body
  %i4 = load i32, i32* %i, align 4
  %add = add nsw i32 %i4, 1
  store i32 %add, i32* %i, align 4
  br label %for.cond

for.end:                                          ; preds = %bb6
  %i5 = load i32, i32* %s, align 4
  ret i32 %i5

bb:                                               ; preds = %for.cond
  br label %for.body

bb6:                                              ; preds = %for.cond
  br label %for.end
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z3o21ii(i32 %x, i32 %y) {
entry:
  %x.addr = alloca i32, align 4
  %y.addr = alloca i32, align 4
  %p = alloca i32*, align 8
  %q = alloca i32*, align 8
  store i32 %x, i32* %x.addr, align 4
  store i32 %y, i32* %y.addr, align 4
  store i32* %x.addr, i32** %p, align 8
  %i = load i32*, i32** %p, align 8
  store i32* %i, i32** %q, align 8
  %i1 = load i32, i32* %y.addr, align 4
  %i2 = load i32*, i32** %q, align 8
  store i32 %i1, i32* %i2, align 4
  %i3 = load i32, i32* %x.addr, align 4
  ret i32 %i3
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z3o22ii(i32 %x, i32 %y) {
entry:
  %x.addr = alloca i32, align 4
  %y.addr = alloca i32, align 4
  %m = alloca i32, align 4
  %r = alloca i32*, align 8
  store i32 %x, i32* %x.addr, align 4
  store i32 %y, i32* %y.addr, align 4
  %i = load i32, i32* %x.addr, align 4
  store i32 %i, i32* %m, align 4
  store i32* %m, i32** %r, align 8
  %i1 = load i32, i32* %y.addr, align 4
  store i32 %i1, i32* %m, align 4
  %i2 = load i32*, i32** %r, align 8
  %i3 = load i32, i32* %i2, align 4
  %i4 = load i32, i32* %m, align 4
  %add = add nsw i32 %i3, %i4
  ret i32 %add
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local void @_Z3o23NSt3__16vectorIiNS_9allocatorIiEEEE(%"class.std::__1::vector"* noalias sret align 8 %agg.result, %"class.std::__1::vector"* %l) {
entry:
  %result.ptr = alloca i8*, align 8
  %nrvo = alloca i1, align 1
  %ref.tmp = alloca i32, align 4
  %i = bitcast %"class.std::__1::vector"* %agg.result to i8*
  store i8* %i, i8** %result.ptr, align 8
  store i1 false, i1* %nrvo, align 1
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEEC1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  call void @_Z4fillRNSt3__16vectorIiNS_9allocatorIiEEEES4_(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, %"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l)
  store i32 1, i32* %ref.tmp, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp)
  store i1 true, i1* %nrvo, align 1
  %nrvo.val = load i1, i1* %nrvo, align 1
  br i1 %nrvo.val, label %bb, label %bb1

nrvo.unused:                                      ; preds = %bb1
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEED1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  br label %nrvo.skipdtor

nrvo.skipdtor:                                    ; preds = %bb, %nrvo.unused
  ret void

bb:                                               ; preds = %entry
  br label %nrvo.skipdtor

bb1:                                              ; preds = %entry
  br label %nrvo.unused
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z3o24RNSt3__16vectorIiNS_9allocatorIiEEEEi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l, i32 %n) {
entry:
  %l.addr = alloca %"class.std::__1::vector"*, align 8
  %n.addr = alloca i32, align 4
  store %"class.std::__1::vector"* %l, %"class.std::__1::vector"** %l.addr, align 8
  store i32 %n, i32* %n.addr, align 4
  %i = load %"class.std::__1::vector"*, %"class.std::__1::vector"** %l.addr, align 8
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %i, i32* nonnull align 4 dereferenceable(4) %n.addr)
  %i1 = load %"class.std::__1::vector"*, %"class.std::__1::vector"** %l.addr, align 8
  %call = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %i1)
  %conv = trunc i64 %call to i32
  ret i32 %conv
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z3o25RNSt3__16vectorIiNS_9allocatorIiEEEEi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l, i32 %n) {
entry:
  %l.addr = alloca %"class.std::__1::vector"*, align 8
  %n.addr = alloca i32, align 4
  store %"class.std::__1::vector"* %l, %"class.std::__1::vector"** %l.addr, align 8
  store i32 %n, i32* %n.addr, align 4
  %i = load %"class.std::__1::vector"*, %"class.std::__1::vector"** %l.addr, align 8
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE5clearEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %i)
  %i1 = load %"class.std::__1::vector"*, %"class.std::__1::vector"** %l.addr, align 8
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %i1, i32* nonnull align 4 dereferenceable(4) %n.addr)
  %i2 = load %"class.std::__1::vector"*, %"class.std::__1::vector"** %l.addr, align 8
  %call = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %i2)
  %conv = trunc i64 %call to i32
  ret i32 %conv
}



