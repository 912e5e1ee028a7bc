
target datalayout = "e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-f80:128-n8:16:32:64-S128"
target triple = "x86_64-pc-linux-gnu"

%"class.std::__1::vector" = type { i32*, i32*, i32* }

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z2g0ii(i32 %x, i32 %a) {
entry:
  %retval = alloca i32, align 4
  %x.addr = alloca i32, align 4
  %a.addr = alloca i32, align 4
  %x0 = alloca i32, align 4
  %t = alloca i32, align 4
  %i = alloca i32, align 4
  store i32 %x, i32* %x.addr, align 4
  store i32 %a, i32* %a.addr, align 4
  %i1 = load i32, i32* %x.addr, align 4
  store i32 %i1, i32* %x0, align 4
  %i2 = load i32, i32* %x.addr, align 4
  store i32 %i2, i32* %t, align 4
  store i32 0, i32* %i, align 4
  store i32 1, i32* %x.addr, align 4
  br label %while.cond

while.cond:                                       ; preds = %if.end8, %entry
  %i3 = load i32, i32* %i, align 4
  %cmp = icmp slt i32 %i3, 3
  br i1 %cmp, label %bb, label %bb28

while.body:                                       ; preds = %bb
  %i4 = load i32, i32* %a.addr, align 4
  %i5 = load i32, i32* %t, align 4
  %cmp1 = icmp slt i32 %i4, %i5
  br i1 %cmp1, label %bb29, label %bb30

if.then:                                          ; preds = %bb29
  %i6 = load i32, i32* %t, align 4
  %i7 = load i32, i32* %a.addr, align 4
  %add = add nsw i32 %i6, %i7
  store i32 %add, i32* %x.addr, align 4
  %i8 = load i32, i32* %i, align 4
  %i9 = load i32, i32* %x0, align 4
  %sub = sub nsw i32 %i8, %i9
  store i32 %sub, i32* %t, align 4
  br label %if.end

if.else:                                          ; preds = %bb30
  %i10 = load i32, i32* %x.addr, align 4
  %sub2 = sub nsw i32 %i10, 1
  store i32 %sub2, i32* %x.addr, align 4
  br label %if.end

if.end:                                           ; preds = %if.else, %if.then
  %i11 = load i32, i32* %x.addr, align 4
  %i12 = load i32, i32* %a.addr, align 4
  %cmp3 = icmp sle i32 %i11, %i12
  br i1 %cmp3, label %bb31, label %bb32

if.then4:                                         ; preds = %bb31
  %i13 = load i32, i32* %t, align 4
  %i14 = load i32, i32* %x.addr, align 4
  %mul = mul nsw i32 %i14, 2
  %add5 = add nsw i32 %i13, %mul
  store i32 %add5, i32* %retval, align 4
  br label %return

if.else6:                                         ; preds = %bb32
  %i15 = load i32, i32* %x0, align 4
  %sub7 = sub nsw i32 3, %i15
  store i32 %sub7, i32* %x.addr, align 4
  br label %if.end8

if.end8:                                          ; preds = %if.else6
  %i16 = load i32, i32* %i, align 4
  %add9 = add nsw i32 %i16, 1
  store i32 %add9, i32* %i, align 4
  br label %while.cond

while.end:                                        ; preds = %bb28
  %i17 = load i32, i32* %i, align 4
  %i18 = load i32, i32* %x0, align 4
  %cmp10 = icmp sle i32 %i17, %i18
  br i1 %cmp10, label %bb33, label %bb34

if.then11:                                        ; preds = %bb33
  %i19 = load i32, i32* %t, align 4
  %i20 = load i32, i32* %x.addr, align 4
  %mul12 = mul nsw i32 %i20, 2
  %add13 = add nsw i32 %i19, %mul12
  store i32 %add13, i32* %retval, align 4
  br label %return

if.else14:                                        ; preds = %bb34
  store i32 1, i32* %x.addr, align 4
  br label %if.end15

if.end15:                                         ; preds = %if.else14
  %i21 = load i32, i32* %t, align 4
  %i22 = load i32, i32* %x0, align 4
  %cmp16 = icmp sle i32 %i21, %i22
  br i1 %cmp16, label %bb35, label %bb36

if.then17:                                        ; preds = %bb35
  store i32 0, i32* %x.addr, align 4
  %i23 = load i32, i32* %t, align 4
  store i32 %i23, i32* %retval, align 4
  br label %return

if.else18:                                        ; preds = %bb36
  %i24 = load i32, i32* %x.addr, align 4
  %i25 = load i32, i32* %t, align 4
  %add19 = add nsw i32 %i24, %i25
  store i32 %add19, i32* %x.addr, align 4
  br label %if.end20

if.end20:                                         ; preds = %if.else18
  %i26 = load i32, i32* %x.addr, align 4
  store i32 %i26, i32* %retval, align 4
  br label %return

return:                                           ; preds = %if.end20, %if.then17, %if.then11, %if.then4
  %i27 = load i32, i32* %retval, align 4
  ret i32 %i27

bb:                                               ; preds = %while.cond
  br label %while.body

bb28:                                             ; preds = %while.cond
  br label %while.end

bb29:                                             ; preds = %while.body
  br label %if.then

bb30:                                             ; preds = %while.body
  br label %if.else

bb31:                                             ; preds = %if.end
  br label %if.then4

bb32:                                             ; preds = %if.end
  br label %if.else6

bb33:                                             ; preds = %while.end
  br label %if.then11

bb34:                                             ; preds = %while.end
  br label %if.else14

bb35:                                             ; preds = %if.end15
  br label %if.then17

bb36:                                             ; preds = %if.end15
  br label %if.else18
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z2g1iii(i32 %n, i32 %x, i32 %y) {
entry:
  %retval = alloca i32, align 4
  %n.addr = alloca i32, align 4
  %x.addr = alloca i32, align 4
  %y.addr = alloca i32, align 4
  %t = alloca i32, align 4
  %i = alloca i32, align 4
  %j = alloca i32, align 4
  store i32 %n, i32* %n.addr, align 4
  store i32 %x, i32* %x.addr, align 4
  store i32 %y, i32* %y.addr, align 4
  %i1 = load i32, i32* %n.addr, align 4
  store i32 %i1, i32* %t, align 4
  store i32 0, i32* %i, align 4
  store i32 0, i32* %j, align 4
  br label %while.cond

while.cond:                                       ; preds = %while.body, %entry
  %i2 = load i32, i32* %j, align 4
  %i3 = load i32, i32* %x.addr, align 4
  %cmp = icmp slt i32 %i2, %i3
  br i1 %cmp, label %bb, label %bb13

while.body:                                       ; preds = %bb
  %i4 = load i32, i32* %t, align 4
  %i5 = load i32, i32* %i, align 4
  %i6 = load i32, i32* %n.addr, align 4
  %add = add nsw i32 %i5, %i6
  %add1 = add nsw i32 %i4, %add
  store i32 %add1, i32* %t, align 4
  %i7 = load i32, i32* %j, align 4
  %add2 = add nsw i32 %i7, 1
  store i32 %add2, i32* %j, align 4
  br label %while.cond

while.end:                                        ; preds = %bb13
  %i8 = load i32, i32* %i, align 4
  %i9 = load i32, i32* %t, align 4
  %cmp3 = icmp sgt i32 %i8, %i9
  br i1 %cmp3, label %bb14, label %bb15

if.then:                                          ; preds = %bb14
  %i10 = load i32, i32* %t, align 4
  store i32 %i10, i32* %retval, align 4
  br label %return

if.else:                                          ; preds = %bb15
  %i11 = load i32, i32* %t, align 4
  store i32 %i11, i32* %retval, align 4
  br label %return

return:                                           ; preds = %if.else, %if.then
  %i12 = load i32, i32* %retval, align 4
  ret i32 %i12

bb:                                               ; preds = %while.cond
  br label %while.body

bb13:                                             ; preds = %while.cond
  br label %while.end

bb14:                                             ; preds = %while.end
  br label %if.then

bb15:                                             ; preds = %while.end
  br label %if.else
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z2g2ii(i32 %a, i32 %y) {
entry:
  %retval = alloca i32, align 4
  %a.addr = alloca i32, align 4
  %y.addr = alloca i32, align 4
  %t = alloca i32, align 4
  %acc = alloca i32, align 4
  %i = alloca i32, align 4
  %j = alloca i32, align 4
  store i32 %a, i32* %a.addr, align 4
  store i32 %y, i32* %y.addr, align 4
  %i1 = load i32, i32* %y.addr, align 4
  %i2 = load i32, i32* %a.addr, align 4
  %add = add nsw i32 %i1, %i2
  store i32 %add, i32* %t, align 4
  store i32 4, i32* %acc, align 4
  store i32 0, i32* %i, align 4
  store i32 0, i32* %j, align 4
  br label %while.cond

while.cond:                                       ; preds = %if.end, %entry
  %i3 = load i32, i32* %i, align 4
  %i4 = load i32, i32* %y.addr, align 4
  %cmp = icmp slt i32 %i3, %i4
  br i1 %cmp, label %bb, label %bb22

while.body:                                       ; preds = %bb
  store i32 0, i32* %j, align 4
  br label %for.cond

for.cond:                                         ; preds = %for.inc, %while.body
  %i5 = load i32, i32* %j, align 4
  %i6 = load i32, i32* %a.addr, align 4
  %cmp1 = icmp slt i32 %i5, %i6
  br i1 %cmp1, label %bb23, label %bb24

for.body:                                         ; preds = %bb23
  %i7 = load i32, i32* %t, align 4
  %i8 = load i32, i32* %i, align 4
  %i9 = load i32, i32* %j, align 4
  %add2 = add nsw i32 %i8, %i9
  %add3 = add nsw i32 %i7, %add2
  store i32 %add3, i32* %t, align 4
  br label %for.inc

for.inc:                                          ; preds = %for.body
  %i10 = load i32, i32* %j, align 4
  %add4 = add nsw i32 %i10, 1
  store i32 %add4, i32* %j, align 4
  br label %for.cond

for.end:                                          ; preds = %bb24
  %i11 = load i32, i32* %a.addr, align 4
  %cmp5 = icmp sge i32 0, %i11
  br i1 %cmp5, label %bb25, label %bb26

land.lhs.true:                                    ; preds = %bb25
  %i12 = load i32, i32* %acc, align 4
  %cmp6 = icmp sgt i32 0, %i12
  br i1 %cmp6, label %bb27, label %bb28

if.then:                                          ; preds = %bb27
  %i13 = load i32, i32* %t, align 4
  %add7 = add nsw i32 %i13, 1
  store i32 %add7, i32* %t, align 4
  %i14 = load i32, i32* %i, align 4
  %i15 = load i32, i32* %acc, align 4
  %sub = sub nsw i32 %i14, %i15
  store i32 %sub, i32* %t, align 4
  br label %if.end

if.end:                                           ; preds = %bb28, %bb26, %if.then
  %i16 = load i32, i32* %i, align 4
  %add8 = add nsw i32 %i16, 1
  store i32 %add8, i32* %i, align 4
  br label %while.cond

while.end:                                        ; preds = %bb22
  %i17 = load i32, i32* %i, align 4
  %i18 = load i32, i32* %t, align 4
  %cmp9 = icmp eq i32 %i17, %i18
  br i1 %cmp9, label %bb29, label %bb30

if.then10:                                        ; preds = %bb29
  %i19 = load i32, i32* %t, align 4
  %add11 = add nsw i32 %i19, 2
  store i32 %add11, i32* %retval, align 4
  br label %return

if.else:                                          ; preds = %bb30
  %i20 = load i32, i32* %t, align 4
  %mul = mul nsw i32 %i20, 2
  store i32 %mul, i32* %retval, align 4
  br label %return

return:                                           ; preds = %if.else, %if.then10
  %i21 = load i32, i32* %retval, align 4
  ret i32 %i21

bb:                                               ; preds = %while.cond
  br label %while.body

bb22:                                             ; preds = %while.cond
  br label %while.end

bb23:                                             ; preds = %for.cond
  br label %for.body

bb24:                                             ; preds = %for.cond
  br label %for.end

bb25:                                             ; preds = %for.end
  br label %land.lhs.true

bb26:                                             ; preds = %for.end
  br label %if.end

bb27:                                             ; preds = %land.lhs.true
  br label %if.then

bb28:                                             ; preds = %land.lhs.true
  br label %if.end

bb29:                                             ; preds = %while.end
  br label %if.then10

bb30:                                             ; preds = %while.end
  br label %if.else
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z2g3i(i32 %n) {
entry:
  %retval = alloca i32, align 4
  %n.addr = alloca i32, align 4
  store i32 %n, i32* %n.addr, align 4
  %i = load i32, i32* %n.addr, align 4
  %cmp = icmp sgt i32 %i, 2
  br i1 %cmp, label %bb, label %bb14

if.then:                                          ; preds = %bb
  %i1 = load i32, i32* %n.addr, align 4
  %i2 = load i32, i32* %n.addr, align 4
  %cmp1 = icmp slt i32 %i1, %i2
  br i1 %cmp1, label %bb15, label %bb16

if.then2:                                         ; preds = %bb15
  %i3 = load i32, i32* %n.addr, align 4
  %sub = sub nsw i32 %i3, 0
  %i4 = load i32, i32* %n.addr, align 4
  %mul = mul nsw i32 %i4, 3
  %add = add nsw i32 %sub, %mul
  store i32 %add, i32* %retval, align 4
  br label %return

if.end:                                           ; preds = %bb16
  br label %if.end7

if.else:                                          ; preds = %bb14
  %i5 = load i32, i32* %n.addr, align 4
  %cmp3 = icmp slt i32 2, %i5
  br i1 %cmp3, label %bb17, label %bb18

if.then4:                                         ; preds = %bb17
  %i6 = load i32, i32* %n.addr, align 4
  %sub5 = sub nsw i32 0, %i6
  store i32 %sub5, i32* %retval, align 4
  br label %return

if.end6:                                          ; preds = %bb18
  br label %if.end7

if.end7:                                          ; preds = %if.end6, %if.end
  %i7 = load i32, i32* %n.addr, align 4
  %i8 = load i32, i32* %n.addr, align 4
  %cmp8 = icmp sle i32 %i7, %i8
  br i1 %cmp8, label %bb19, label %bb20

land.lhs.true:                                    ; preds = %bb19
  %i9 = load i32, i32* %n.addr, align 4
  %i10 = load i32, i32* %n.addr, align 4
  %cmp9 = icmp slt i32 %i9, %i10
  br i1 %cmp9, label %bb21, label %bb22

if.then10:                                        ; preds = %bb21
  %i11 = load i32, i32* %n.addr, align 4
  %add11 = add nsw i32 2, %i11
  store i32 %add11, i32* %retval, align 4
  br label %return

if.else12:                                        ; preds = %bb22, %bb20
  %i12 = load i32, i32* %n.addr, align 4
  store i32 %i12, i32* %retval, align 4
  br label %return

return:                                           ; preds = %if.else12, %if.then10, %if.then4, %if.then2
  %i13 = load i32, i32* %retval, align 4
  ret i32 %i13

bb:                                               ; preds = %entry
  br label %if.then

bb14:                                             ; preds = %entry
  br label %if.else

bb15:                                             ; preds = %if.then
  br label %if.then2

bb16:                                             ; preds = %if.then
  br label %if.end

bb17:                                             ; preds = %if.else
  br label %if.then4

bb18:                                             ; preds = %if.else
  br label %if.end6

bb19:                                             ; preds = %if.end7
  br label %land.lhs.true

bb20:                                             ; preds = %if.end7
  br label %if.else12

bb21:                                             ; preds = %land.lhs.true
  br label %if.then10

bb22:                                             ; preds = %land.lhs.true
  br label %if.else12
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local void @_Z2g4ii(%"class.std::__1::vector"* noalias sret align 8 %agg.result, i32 %a, i32 %x) {
entry:
  %result.ptr = alloca i8*, align 8
  %a.addr = alloca i32, align 4
  %x.addr = alloca i32, align 4
  %s = alloca i32, align 4
  %nrvo = alloca i1, align 1
  %i = alloca i32, align 4
  %ref.tmp = alloca i32, align 4
  %ref.tmp1 = alloca i32, align 4
  %i1 = bitcast %"class.std::__1::vector"* %agg.result to i8*
  store i8* %i1, i8** %result.ptr, align 8
  store i32 %a, i32* %a.addr, align 4
  store i32 %x, i32* %x.addr, align 4
  %i2 = load i32, i32* %a.addr, align 4
  store i32 %i2, i32* %s, align 4
  store i1 false, i1* %nrvo, align 1
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEEC1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  store i32 0, i32* %i, align 4
  %i3 = load i32, i32* %i, align 4
  %i4 = load i32, i32* %a.addr, align 4
  %add = add nsw i32 %i3, %i4
  store i32 %add, i32* %ref.tmp, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp)
  br label %while.cond

while.cond:                                       ; preds = %while.body, %entry
  %i5 = load i32, i32* %i, align 4
  %i6 = load i32, i32* %a.addr, align 4
  %cmp = icmp slt i32 %i5, %i6
  br i1 %cmp, label %bb, label %bb10

while.body:                                       ; preds = %bb
  %i7 = load i32, i32* %a.addr, align 4
  %i8 = load i32, i32* %i, align 4
  %add2 = add nsw i32 %i7, %i8
  store i32 %add2, i32* %ref.tmp1, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp1)
  %i9 = load i32, i32* %i, align 4
  %add3 = add nsw i32 %i9, 1
  store i32 %add3, i32* %i, align 4
  br label %while.cond

while.end:                                        ; preds = %bb10
  store i1 true, i1* %nrvo, align 1
  %nrvo.val = load i1, i1* %nrvo, align 1
  br i1 %nrvo.val, label %bb11, label %bb12

nrvo.unused:                                      ; preds = %bb12
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEED1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  br label %nrvo.skipdtor

nrvo.skipdtor:                                    ; preds = %bb11, %nrvo.unused
  ret void

bb:                                               ; preds = %while.cond
  br label %while.body

bb10:                                             ; preds = %while.cond
  br label %while.end

bb11:                                             ; preds = %while.end
  br label %nrvo.skipdtor

bb12:                                             ; preds = %while.end
  br label %nrvo.unused
}

declare void @_ZNSt3__16vectorIiNS_9allocatorIiEEEC1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24)) unnamed_addr

declare void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24), i32* nonnull align 4 dereferenceable(4))

; Function Attrs: nounwind
declare void @_ZNSt3__16vectorIiNS_9allocatorIiEEED1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24)) unnamed_addr

; Function Attrs: noinline nounwind optnone uwtable
define dso_local void @_Z2g5iiNSt3__16vectorIiNS_9allocatorIiEEEE(%"class.std::__1::vector"* noalias sret align 8 %agg.result, i32 %y, i32 %n, %"class.std::__1::vector"* %l) {
entry:
  %result.ptr = alloca i8*, align 8
  %y.addr = alloca i32, align 4
  %n.addr = alloca i32, align 4
  %acc = alloca i32, align 4
  %nrvo = alloca i1, align 1
  %i = alloca i32, align 4
  %ref.tmp = alloca i32, align 4
  %j = alloca i32, align 4
  %ref.tmp10 = alloca i32, align 4
  %i1 = bitcast %"class.std::__1::vector"* %agg.result to i8*
  store i8* %i1, i8** %result.ptr, align 8
  store i32 %y, i32* %y.addr, align 4
  store i32 %n, i32* %n.addr, align 4
  %i2 = load i32, i32* %n.addr, align 4
  %div = sdiv i32 %i2, 2
  store i32 %div, i32* %acc, align 4
  store i1 false, i1* %nrvo, align 1
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEEC1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  store i32 0, i32* %i, align 4
  %i3 = load i32, i32* %y.addr, align 4
  %call = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l)
  %conv = trunc i64 %call to i32
  %add = add nsw i32 %i3, %conv
  store i32 %add, i32* %acc, align 4
  %i4 = load i32, i32* %i, align 4
  %i5 = load i32, i32* %acc, align 4
  %cmp = icmp slt i32 %i4, %i5
  br i1 %cmp, label %bb, label %bb16

if.then:                                          ; preds = %bb
  %i6 = load i32, i32* %acc, align 4
  %call1 = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l)
  %conv2 = trunc i64 %call1 to i32
  %sub = sub nsw i32 %i6, %conv2
  store i32 %sub, i32* %ref.tmp, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp)
  br label %if.end

if.end:                                           ; preds = %bb16, %if.then
  store i32 0, i32* %j, align 4
  br label %for.cond

for.cond:                                         ; preds = %for.inc, %if.end
  %i7 = load i32, i32* %i, align 4
  %i8 = load i32, i32* %y.addr, align 4
  %cmp3 = icmp slt i32 %i7, %i8
  br i1 %cmp3, label %bb17, label %bb18

for.body:                                         ; preds = %bb17
  %call4 = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l)
  %conv5 = trunc i64 %call4 to i32
  %cmp6 = icmp sgt i32 %conv5, 0
  br i1 %cmp6, label %bb19, label %bb20

if.then7:                                         ; preds = %bb19
  %call8 = call nonnull align 4 dereferenceable(4) i32* @_ZNSt3__16vectorIiNS_9allocatorIiEEEixEm(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l, i64 0)
  %i9 = load i32, i32* %call8, align 4
  store i32 %i9, i32* %acc, align 4
  br label %if.end9

if.end9:                                          ; preds = %bb20, %if.then7
  %i10 = load i32, i32* %n.addr, align 4
  %i11 = load i32, i32* %i, align 4
  %sub11 = sub nsw i32 %i10, %i11
  store i32 %sub11, i32* %ref.tmp10, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp10)
  store i32 0, i32* %j, align 4
  br label %while.cond

while.cond:                                       ; preds = %while.body, %if.end9
  %i12 = load i32, i32* %j, align 4
  %i13 = load i32, i32* %i, align 4
  %add12 = add nsw i32 %i13, 1
  %cmp13 = icmp slt i32 %i12, %add12
  br i1 %cmp13, label %bb21, label %bb22

while.body:                                       ; preds = %bb21
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %j)
  %i14 = load i32, i32* %j, align 4
  %add14 = add nsw i32 %i14, 1
  store i32 %add14, i32* %j, align 4
  br label %while.cond

while.end:                                        ; preds = %bb22
  br label %for.inc

for.inc:                                          ; preds = %while.end
  %i15 = load i32, i32* %i, align 4
  %add15 = add nsw i32 %i15, 1
  store i32 %add15, i32* %i, align 4
  br label %for.cond

for.end:                                          ; preds = %bb18
  store i1 true, i1* %nrvo, align 1
  %nrvo.val = load i1, i1* %nrvo, align 1
  br i1 %nrvo.val, label %bb23, label %bb24

nrvo.unused:                                      ; preds = %bb24
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEED1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  br label %nrvo.skipdtor

nrvo.skipdtor:                                    ; preds = %bb23, %nrvo.unused
  ret void

bb:                                               ; preds = %entry
  br label %if.then

bb16:                                             ; preds = %entry
  br label %if.end

bb17:                                             ; preds = %for.cond
  br label %for.body

bb18:                                             ; preds = %for.cond
  br label %for.end

bb19:                                             ; preds = %for.body
  br label %if.then7

bb20:                                             ; preds = %for.body
  br label %if.end9

bb21:                                             ; preds = %while.cond
  br label %while.body

bb22:                                             ; preds = %while.cond
  br label %while.end

bb23:                                             ; preds = %for.end
  br label %nrvo.skipdtor

bb24:                                             ; preds = %for.end
  br label %nrvo.unused
}

declare i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24))

declare nonnull align 4 dereferenceable(4) i32* @_ZNSt3__16vectorIiNS_9allocatorIiEEEixEm(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24), i64)

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z2g6ii(i32 %x, i32 %a) {
entry:
  %retval = alloca i32, align 4
  %x.addr = alloca i32, align 4
  %a.addr = alloca i32, align 4
  %x0 = alloca i32, align 4
  %s = alloca i32, align 4
  %acc = alloca i32, align 4
  %i = alloca i32, align 4
  store i32 %x, i32* %x.addr, align 4
  store i32 %a, i32* %a.addr, align 4
  %i1 = load i32, i32* %x.addr, align 4
  store i32 %i1, i32* %x0, align 4
  %i2 = load i32, i32* %x.addr, align 4
  %i3 = load i32, i32* %x0, align 4
  %sub = sub nsw i32 %i2, %i3
  store i32 %sub, i32* %s, align 4
  %i4 = load i32, i32* %x.addr, align 4
  store i32 %i4, i32* %acc, align 4
  store i32 0, i32* %i, align 4
  %i5 = load i32, i32* %x.addr, align 4
  %i6 = load i32, i32* %acc, align 4
  %cmp = icmp sgt i32 %i5, %i6
  br i1 %cmp, label %bb, label %bb22

if.then:                                          ; preds = %bb
  %i7 = load i32, i32* %x.addr, align 4
  store i32 %i7, i32* %retval, align 4
  br label %return

if.else:                                          ; preds = %bb22
  store i32 0, i32* %s, align 4
  br label %if.end

if.end:                                           ; preds = %if.else
  br label %for.cond

for.cond:                                         ; preds = %for.inc, %if.end
  %i8 = load i32, i32* %i, align 4
  %cmp1 = icmp slt i32 %i8, 3
  br i1 %cmp1, label %bb23, label %bb24

for.body:                                         ; preds = %bb23
  %i9 = load i32, i32* %i, align 4
  %i10 = load i32, i32* %s, align 4
  %cmp2 = icmp sle i32 %i9, %i10
  br i1 %cmp2, label %bb25, label %bb26

if.then3:                                         ; preds = %bb25
  %i11 = load i32, i32* %s, align 4
  %i12 = load i32, i32* %acc, align 4
  %mul = mul nsw i32 %i12, 2
  %add = add nsw i32 %i11, %mul
  store i32 %add, i32* %retval, align 4
  br label %return

if.else4:                                         ; preds = %bb26
  %i13 = load i32, i32* %s, align 4
  %add5 = add nsw i32 %i13, 3
  store i32 %add5, i32* %s, align 4
  br label %if.end6

if.end6:                                          ; preds = %if.else4
  %i14 = load i32, i32* %acc, align 4
  %sub7 = sub nsw i32 0, %i14
  store i32 %sub7, i32* %acc, align 4
  br label %for.inc

for.inc:                                          ; preds = %if.end6
  %i15 = load i32, i32* %i, align 4
  %add8 = add nsw i32 %i15, 1
  store i32 %add8, i32* %i, align 4
  br label %for.cond

for.end:                                          ; preds = %bb24
  %i16 = load i32, i32* %a.addr, align 4
  %i17 = load i32, i32* %acc, align 4
  %cmp9 = icmp sle i32 %i16, %i17
  br i1 %cmp9, label %bb27, label %bb28

if.then10:                                        ; preds = %bb27
  %i18 = load i32, i32* %s, align 4
  store i32 %i18, i32* %retval, align 4
  br label %return

if.end11:                                         ; preds = %bb28
  %i19 = load i32, i32* %s, align 4
  %add12 = add nsw i32 %i19, 1
  store i32 %add12, i32* %s, align 4
  %i20 = load i32, i32* %x.addr, align 4
  store i32 %i20, i32* %retval, align 4
  br label %return

return:                                           ; preds = %if.end11, %if.then10, %if.then3, %if.then
  %i21 = load i32, i32* %retval, align 4
  ret i32 %i21

bb:                                               ; preds = %entry
  br label %if.then

bb22:                                             ; preds = %entry
  br label %if.else

bb23:                                             ; preds = %for.cond
  br label %for.body

bb24:                                             ; preds = %for.cond
  br label %for.end

bb25:                                             ; preds = %for.body
  br label %if.then3

bb26:                                             ; preds = %for.body
  br label %if.else4

bb27:                                             ; preds = %for.end
  br label %if.then10

bb28:                                             ; preds = %for.end
  br label %if.end11
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z2g7ii(i32 %x, i32 %a) {
entry:
  %retval = alloca i32, align 4
  %x.addr = alloca i32, align 4
  %a.addr = alloca i32, align 4
  store i32 %x, i32* %x.addr, align 4
  store i32 %a, i32* %a.addr, align 4
  %i = load i32, i32* %x.addr, align 4
  %cmp = icmp sgt i32 %i, 1
  br i1 %cmp, label %bb, label %bb8

if.then:                                          ; preds = %bb
  %i1 = load i32, i32* %x.addr, align 4
  %i2 = load i32, i32* %a.addr, align 4
  %add = add nsw i32 %i1, %i2
  %i3 = load i32, i32* %x.addr, align 4
  %i4 = load i32, i32* %a.addr, align 4
  %sub = sub nsw i32 %i3, %i4
  %add1 = add nsw i32 %add, %sub
  store i32 %add1, i32* %retval, align 4
  br label %return

if.else:                                          ; preds = %bb8
  %i5 = load i32, i32* %a.addr, align 4
  %sub2 = sub nsw i32 0, %i5
  %i6 = load i32, i32* %a.addr, align 4
  %add3 = add nsw i32 %sub2, %i6
  store i32 %add3, i32* %retval, align 4
  br label %return

return:                                           ; preds = %if.else, %if.then
  %i7 = load i32, i32* %retval, align 4
  ret i32 %i7

bb:                                               ; preds = %entry
  br label %if.then

bb8:                                              ; preds = %entry
  br label %if.else
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z2g8iii(i32 %n, i32 %x, i32 %y) {
entry:
  %retval = alloca i32, align 4
  %n.addr = alloca i32, align 4
  %x.addr = alloca i32, align 4
  %y.addr = alloca i32, align 4
  %s = alloca i32, align 4
  %t = alloca i32, align 4
  %i = alloca i32, align 4
  %j = alloca i32, align 4
  store i32 %n, i32* %n.addr, align 4
  store i32 %x, i32* %x.addr, align 4
  store i32 %y, i32* %y.addr, align 4
  %i1 = load i32, i32* %y.addr, align 4
  %i2 = load i32, i32* %x.addr, align 4
  %add = add nsw i32 %i1, %i2
  store i32 %add, i32* %s, align 4
  %i3 = load i32, i32* %s, align 4
  %mul = mul nsw i32 %i3, 3
  store i32 %mul, i32* %t, align 4
  store i32 0, i32* %i, align 4
  %i4 = load i32, i32* %i, align 4
  store i32 %i4, i32* %s, align 4
  %i5 = load i32, i32* %s, align 4
  %add1 = add nsw i32 1, %i5
  store i32 %add1, i32* %s, align 4
  %i6 = load i32, i32* %t, align 4
  %i7 = load i32, i32* %s, align 4
  %cmp = icmp sge i32 %i6, %i7
  br i1 %cmp, label %bb, label %bb25

if.then:                                          ; preds = %bb
  %i8 = load i32, i32* %t, align 4
  %i9 = load i32, i32* %n.addr, align 4
  %add2 = add nsw i32 %i8, %i9
  store i32 %add2, i32* %t, align 4
  br label %if.end

if.else:                                          ; preds = %bb25
  %i10 = load i32, i32* %t, align 4
  %i11 = load i32, i32* %x.addr, align 4
  %sub = sub nsw i32 %i10, %i11
  store i32 %sub, i32* %retval, align 4
  br label %return

if.end:                                           ; preds = %if.then
  store i32 0, i32* %j, align 4
  br label %for.cond

for.cond:                                         ; preds = %for.inc14, %if.end
  %i12 = load i32, i32* %i, align 4
  %cmp3 = icmp slt i32 %i12, 3
  br i1 %cmp3, label %bb26, label %bb27

for.body:                                         ; preds = %bb26
  store i32 0, i32* %j, align 4
  br label %for.cond4

for.cond4:                                        ; preds = %for.inc, %for.body
  %i13 = load i32, i32* %j, align 4
  %i14 = load i32, i32* %i, align 4
  %cmp5 = icmp slt i32 %i13, %i14
  br i1 %cmp5, label %bb28, label %bb29

for.body6:                                        ; preds = %bb28
  %i15 = load i32, i32* %j, align 4
  %cmp7 = icmp slt i32 %i15, 1
  br i1 %cmp7, label %bb30, label %bb31

if.then8:                                         ; preds = %bb30
  %i16 = load i32, i32* %t, align 4
  %i17 = load i32, i32* %x.addr, align 4
  %add9 = add nsw i32 %i16, %i17
  store i32 %add9, i32* %t, align 4
  br label %if.end10

if.end10:                                         ; preds = %bb31, %if.then8
  br label %for.inc

for.inc:                                          ; preds = %if.end10
  %i18 = load i32, i32* %j, align 4
  %add11 = add nsw i32 %i18, 1
  store i32 %add11, i32* %j, align 4
  br label %for.cond4

for.end:                                          ; preds = %bb29
  %i19 = load i32, i32* %t, align 4
  %i20 = load i32, i32* %y.addr, align 4
  %sub12 = sub nsw i32 3, %i20
  %add13 = add nsw i32 %i19, %sub12
  store i32 %add13, i32* %t, align 4
  br label %for.inc14

for.inc14:                                        ; preds = %for.end
  %i21 = load i32, i32* %i, align 4
  %add15 = add nsw i32 %i21, 1
  store i32 %add15, i32* %i, align 4
  br label %for.cond

for.end16:                                        ; preds = %bb27
  %i22 = load i32, i32* %t, align 4
  %i23 = load i32, i32* %y.addr, align 4
  %add17 = add nsw i32 %i22, %i23
  store i32 %add17, i32* %retval, align 4
  br label %return

return:                                           ; preds = %for.end16, %if.else
  %i24 = load i32, i32* %retval, align 4
  ret i32 %i24

bb:                                               ; preds = %entry
  br label %if.then

bb25:                                             ; preds = %entry
  br label %if.else

bb26:                                             ; preds = %for.cond
  br label %for.body

bb27:                                             ; preds = %for.cond
  br label %for.end16

bb28:                                             ; preds = %for.cond4
  br label %for.body6

bb29:                                             ; preds = %for.cond4
  br label %for.end

bb30:                                             ; preds = %for.body6
  br label %if.then8

bb31:                                             ; preds = %for.body6
  br label %if.end10
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z2g9i(i32 %n) {
entry:
  %retval = alloca i32, align 4
  %n.addr = alloca i32, align 4
  %s = alloca i32, align 4
  %i = alloca i32, align 4
  %j = alloca i32, align 4
  store i32 %n, i32* %n.addr, align 4
  store i32 5, i32* %s, align 4
  store i32 0, i32* %i, align 4
  store i32 0, i32* %j, align 4
  %i1 = load i32, i32* %j, align 4
  %cmp = icmp slt i32 %i1, 1
  br i1 %cmp, label %bb, label %bb6

if.then:                                          ; preds = %bb
  %i2 = load i32, i32* %s, align 4
  %i3 = load i32, i32* %n.addr, align 4
  %add = add nsw i32 %i2, %i3
  store i32 %add, i32* %retval, align 4
  br label %return

if.else:                                          ; preds = %bb6
  %i4 = load i32, i32* %s, align 4
  store i32 %i4, i32* %retval, align 4
  br label %return

return:                                           ; preds = %if.else, %if.then
  %i5 = load i32, i32* %retval, align 4
  ret i32 %i5

bb:                                               ; preds = %entry
  br label %if.then

bb6:                                              ; preds = %entry
  br label %if.else
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z3g10iNSt3__16vectorIiNS_9allocatorIiEEEEii(i32 %a, %"class.std::__1::vector"* %l, i32 %y, i32 %n) {
entry:
  %retval = alloca i32, align 4
  %a.addr = alloca i32, align 4
  %y.addr = alloca i32, align 4
  %n.addr = alloca i32, align 4
  %acc = alloca i32, align 4
  %i = alloca i32, align 4
  store i32 %a, i32* %a.addr, align 4
  store i32 %y, i32* %y.addr, align 4
  store i32 %n, i32* %n.addr, align 4
  %i1 = load i32, i32* %a.addr, align 4
  %mul = mul nsw i32 %i1, 2
  store i32 %mul, i32* %acc, align 4
  store i32 0, i32* %i, align 4
  %call = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l)
  %conv = trunc i64 %call to i32
  %i2 = load i32, i32* %i, align 4
  %cmp = icmp slt i32 %conv, %i2
  br i1 %cmp, label %bb, label %bb24

if.then:                                          ; preds = %bb
  %i3 = load i32, i32* %acc, align 4
  store i32 %i3, i32* %retval, align 4
  br label %return

if.else:                                          ; preds = %bb24
  %i4 = load i32, i32* %a.addr, align 4
  %i5 = load i32, i32* %acc, align 4
  %sub = sub nsw i32 %i4, %i5
  store i32 %sub, i32* %acc, align 4
  br label %if.end

if.end:                                           ; preds = %if.else
  br label %for.cond

for.cond:                                         ; preds = %for.inc, %if.end
  %i6 = load i32, i32* %i, align 4
  %conv1 = sext i32 %i6 to i64
  %call2 = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l)
  %cmp3 = icmp ult i64 %conv1, %call2
  br i1 %cmp3, label %bb25, label %bb26

for.body:                                         ; preds = %bb25
  %i7 = load i32, i32* %i, align 4
  %conv4 = sext i32 %i7 to i64
  %call5 = call nonnull align 4 dereferenceable(4) i32* @_ZNSt3__16vectorIiNS_9allocatorIiEEEixEm(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l, i64 %conv4)
  %i8 = load i32, i32* %call5, align 4
  %i9 = load i32, i32* %n.addr, align 4
  %cmp6 = icmp slt i32 %i8, %i9
  br i1 %cmp6, label %bb27, label %bb28

if.then7:                                         ; preds = %bb27
  %i10 = load i32, i32* %acc, align 4
  %i11 = load i32, i32* %a.addr, align 4
  %i12 = load i32, i32* %i, align 4
  %conv8 = sext i32 %i12 to i64
  %call9 = call nonnull align 4 dereferenceable(4) i32* @_ZNSt3__16vectorIiNS_9allocatorIiEEEixEm(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l, i64 %conv8)
  %i13 = load i32, i32* %call9, align 4
  %sub10 = sub nsw i32 %i11, %i13
  %add = add nsw i32 %i10, %sub10
  store i32 %add, i32* %acc, align 4
  %i14 = load i32, i32* %a.addr, align 4
  %call11 = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l)
  %conv12 = trunc i64 %call11 to i32
  %sub13 = sub nsw i32 %conv12, 1
  %i15 = load i32, i32* %i, align 4
  %sub14 = sub nsw i32 %sub13, %i15
  %conv15 = sext i32 %sub14 to i64
  %call16 = call nonnull align 4 dereferenceable(4) i32* @_ZNSt3__16vectorIiNS_9allocatorIiEEEixEm(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l, i64 %conv15)
  %i16 = load i32, i32* %call16, align 4
  %add17 = add nsw i32 %i14, %i16
  store i32 %add17, i32* %acc, align 4
  br label %if.end18

if.end18:                                         ; preds = %bb28, %if.then7
  %i17 = load i32, i32* %i, align 4
  %conv19 = sext i32 %i17 to i64
  %call20 = call nonnull align 4 dereferenceable(4) i32* @_ZNSt3__16vectorIiNS_9allocatorIiEEEixEm(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l, i64 %conv19)
  %i18 = load i32, i32* %call20, align 4
  %cmp21 = icmp sgt i32 %i18, 2
  br i1 %cmp21, label %bb29, label %bb30

if.then22:                                        ; preds = %bb29
  %i19 = load i32, i32* %i, align 4
  %conv23 = sext i32 %i19 to i64
  %call24 = call nonnull align 4 dereferenceable(4) i32* @_ZNSt3__16vectorIiNS_9allocatorIiEEEixEm(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l, i64 %conv23)
  %i20 = load i32, i32* %call24, align 4
  store i32 %i20, i32* %acc, align 4
  br label %if.end25

if.end25:                                         ; preds = %bb30, %if.then22
  br label %for.inc

for.inc:                                          ; preds = %if.end25
  %i21 = load i32, i32* %i, align 4
  %add26 = add nsw i32 %i21, 1
  store i32 %add26, i32* %i, align 4
  br label %for.cond

for.end:                                          ; preds = %bb26
  %i22 = load i32, i32* %acc, align 4
  store i32 %i22, i32* %retval, align 4
  br label %return

return:                                           ; preds = %for.end, %if.then
  %i23 = load i32, i32* %retval, align 4
  ret i32 %i23

bb:                                               ; preds = %entry
  br label %if.then

bb24:                                             ; preds = %entry
  br label %if.else

bb25:                                             ; preds = %for.cond
  br label %for.body

bb26:                                             ; preds = %for.cond
  br label %for.end

bb27:                                             ; preds = %for.body
  br label %if.then7

bb28:                                             ; preds = %for.body
  br label %if.end18

bb29:                                             ; preds = %if.end18
  br label %if.then22

bb30:                                             ; preds = %if.end18
  br label %if.end25
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z3g11iNSt3__16vectorIiNS_9allocatorIiEEEE(i32 %x, %"class.std::__1::vector"* %l) {
entry:
  %x.addr = alloca i32, align 4
  %t = alloca i32, align 4
  %i = alloca i32, align 4
  %j = alloca i32, align 4
  store i32 %x, i32* %x.addr, align 4
  %call = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l)
  %conv = trunc i64 %call to i32
  %sub = sub nsw i32 %conv, 2
  store i32 %sub, i32* %t, align 4
  store i32 0, i32* %i, align 4
  %call1 = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l)
  %conv2 = trunc i64 %call1 to i32
  %cmp = icmp sgt i32 %conv2, 0
  br i1 %cmp, label %bb, label %bb22

if.then:                                          ; preds = %bb
  %call3 = call nonnull align 4 dereferenceable(4) i32* @_ZNSt3__16vectorIiNS_9allocatorIiEEEixEm(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l, i64 0)
  %i1 = load i32, i32* %call3, align 4
  store i32 %i1, i32* %t, align 4
  br label %if.end

if.end:                                           ; preds = %bb22, %if.then
  store i32 0, i32* %j, align 4
  br label %for.cond

for.cond:                                         ; preds = %for.inc, %if.end
  %i2 = load i32, i32* %i, align 4
  %conv4 = sext i32 %i2 to i64
  %call5 = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l)
  %cmp6 = icmp ult i64 %conv4, %call5
  br i1 %cmp6, label %bb23, label %bb24

for.body:                                         ; preds = %bb23
  store i32 0, i32* %j, align 4
  br label %while.cond

while.cond:                                       ; preds = %while.body, %for.body
  %i3 = load i32, i32* %j, align 4
  %i4 = load i32, i32* %i, align 4
  %cmp7 = icmp slt i32 %i3, %i4
  br i1 %cmp7, label %bb25, label %bb26

while.body:                                       ; preds = %bb25
  %i5 = load i32, i32* %t, align 4
  %i6 = load i32, i32* %i, align 4
  %i7 = load i32, i32* %j, align 4
  %add = add nsw i32 %i6, %i7
  %add8 = add nsw i32 %i5, %add
  store i32 %add8, i32* %t, align 4
  %i8 = load i32, i32* %j, align 4
  %add9 = add nsw i32 %i8, 1
  store i32 %add9, i32* %j, align 4
  br label %while.cond

while.end:                                        ; preds = %bb26
  %call10 = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l)
  %conv11 = trunc i64 %call10 to i32
  %i9 = load i32, i32* %x.addr, align 4
  %cmp12 = icmp sle i32 %conv11, %i9
  br i1 %cmp12, label %bb27, label %bb28

land.lhs.true:                                    ; preds = %bb27
  %i10 = load i32, i32* %x.addr, align 4
  %i11 = load i32, i32* %i, align 4
  %cmp13 = icmp sle i32 %i10, %i11
  br i1 %cmp13, label %bb29, label %bb30

if.then14:                                        ; preds = %bb29
  %i12 = load i32, i32* %i, align 4
  store i32 %i12, i32* %t, align 4
  br label %if.end16

if.else:                                          ; preds = %bb30, %bb28
  %i13 = load i32, i32* %i, align 4
  %i14 = load i32, i32* %t, align 4
  %sub15 = sub nsw i32 %i13, %i14
  store i32 %sub15, i32* %t, align 4
  br label %if.end16

if.end16:                                         ; preds = %if.else, %if.then14
  %i15 = load i32, i32* %i, align 4
  %cmp17 = icmp sle i32 3, %i15
  br i1 %cmp17, label %bb31, label %bb32

if.then18:                                        ; preds = %bb31
  %i16 = load i32, i32* %t, align 4
  %i17 = load i32, i32* %x.addr, align 4
  %i18 = load i32, i32* %i, align 4
  %conv19 = sext i32 %i18 to i64
  %call20 = call nonnull align 4 dereferenceable(4) i32* @_ZNSt3__16vectorIiNS_9allocatorIiEEEixEm(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l, i64 %conv19)
  %i19 = load i32, i32* %call20, align 4
  %sub21 = sub nsw i32 %i17, %i19
  %add22 = add nsw i32 %i16, %sub21
  store i32 %add22, i32* %t, align 4
  br label %if.end23

if.end23:                                         ; preds = %bb32, %if.then18
  br label %for.inc

for.inc:                                          ; preds = %if.end23
  %i20 = load i32, i32* %i, align 4
  %add24 = add nsw i32 %i20, 1
  store i32 %add24, i32* %i, align 4
  br label %for.cond

for.end:                                          ; preds = %bb24
  %i21 = load i32, i32* %t, align 4
  ret i32 %i21

bb:                                               ; preds = %entry
  br label %if.then

bb22:                                             ; preds = %entry
  br label %if.end

bb23:                                             ; preds = %for.cond
  br label %for.body

bb24:                                             ; preds = %for.cond
  br label %for.end

bb25:                                             ; preds = %while.cond
  br label %while.body

bb26:                                             ; preds = %while.cond
  br label %while.end

bb27:                                             ; preds = %while.end
  br label %land.lhs.true

bb28:                                             ; preds = %while.end
  br label %if.else

bb29:                                             ; preds = %land.lhs.true
  br label %if.then14

bb30:                                             ; preds = %land.lhs.true
  br label %if.else

bb31:                                             ; preds = %if.end16
  br label %if.then18

bb32:                                             ; preds = %if.end16
  br label %if.end23
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z3g12ii(i32 %a, i32 %n) {
entry:
  %a.addr = alloca i32, align 4
  %n.addr = alloca i32, align 4
  %a0 = alloca i32, align 4
  %acc = alloca i32, align 4
  %i = alloca i32, align 4
  store i32 %a, i32* %a.addr, align 4
  store i32 %n, i32* %n.addr, align 4
  %i1 = load i32, i32* %a.addr, align 4
  store i32 %i1, i32* %a0, align 4
  %i2 = load i32, i32* %a0, align 4
  %mul = mul nsw i32 %i2, 3
  store i32 %mul, i32* %acc, align 4
  store i32 0, i32* %i, align 4
  br label %for.cond

for.cond:                                         ; preds = %for.inc, %entry
  %i3 = load i32, i32* %i, align 4
  %cmp = icmp slt i32 %i3, 2
  br i1 %cmp, label %bb, label %bb10

for.body:                                         ; preds = %bb
  %i4 = load i32, i32* %a0, align 4
  %add = add nsw i32 %i4, 3
  store i32 %add, i32* %a.addr, align 4
  %i5 = load i32, i32* %acc, align 4
  %i6 = load i32, i32* %i, align 4
  %add1 = add nsw i32 %i5, %i6
  store i32 %add1, i32* %acc, align 4
  br label %for.inc

for.inc:                                          ; preds = %for.body
  %i7 = load i32, i32* %i, align 4
  %add2 = add nsw i32 %i7, 1
  store i32 %add2, i32* %i, align 4
  br label %for.cond

for.end:                                          ; preds = %bb10
  store i32 4, i32* %a.addr, align 4
  %i8 = load i32, i32* %acc, align 4
  %i9 = load i32, i32* %a.addr, align 4
  %mul3 = mul nsw i32 %i9, 2
  %add4 = add nsw i32 %i8, %mul3
  ret i32 %add4

bb:                                               ; preds = %for.cond
  br label %for.body

bb10:                                             ; preds = %for.cond
  br label %for.end
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z3g13iii(i32 %a, i32 %y, i32 %n) {
entry:
  %a.addr = alloca i32, align 4
  %y.addr = alloca i32, align 4
  %n.addr = alloca i32, align 4
  %acc = alloca i32, align 4
  %i = alloca i32, align 4
  %j = alloca i32, align 4
  store i32 %a, i32* %a.addr, align 4
  store i32 %y, i32* %y.addr, align 4
  store i32 %n, i32* %n.addr, align 4
  %i1 = load i32, i32* %n.addr, align 4
  %i2 = load i32, i32* %a.addr, align 4
  %sub = sub nsw i32 %i1, %i2
  store i32 %sub, i32* %acc, align 4
  store i32 0, i32* %i, align 4
  store i32 0, i32* %j, align 4
  br label %while.cond

while.cond:                                       ; preds = %while.body, %entry
  %i3 = load i32, i32* %i, align 4
  %i4 = load i32, i32* %y.addr, align 4
  %cmp = icmp slt i32 %i3, %i4
  br i1 %cmp, label %bb, label %bb20

while.body:                                       ; preds = %bb
  %i5 = load i32, i32* %i, align 4
  %i6 = load i32, i32* %n.addr, align 4
  %add = add nsw i32 %i5, %i6
  store i32 %add, i32* %acc, align 4
  %i7 = load i32, i32* %i, align 4
  %add1 = add nsw i32 %i7, 1
  store i32 %add1, i32* %i, align 4
  br label %while.cond

while.end:                                        ; preds = %bb20
  store i32 0, i32* %i, align 4
  br label %while.cond2

while.cond2:                                      ; preds = %while.body4, %while.end
  %i8 = load i32, i32* %i, align 4
  %i9 = load i32, i32* %a.addr, align 4
  %cmp3 = icmp slt i32 %i8, %i9
  br i1 %cmp3, label %bb21, label %bb22

while.body4:                                      ; preds = %bb21
  %i10 = load i32, i32* %acc, align 4
  %i11 = load i32, i32* %n.addr, align 4
  %i12 = load i32, i32* %i, align 4
  %add5 = add nsw i32 %i11, %i12
  %sub6 = sub nsw i32 %i10, %add5
  store i32 %sub6, i32* %acc, align 4
  %i13 = load i32, i32* %i, align 4
  %add7 = add nsw i32 %i13, 1
  store i32 %add7, i32* %i, align 4
  br label %while.cond2

while.end8:                                       ; preds = %bb22
  %i14 = load i32, i32* %acc, align 4
  %cmp9 = icmp slt i32 %i14, 0
  br i1 %cmp9, label %bb23, label %bb24

if.then:                                          ; preds = %bb23
  %i15 = load i32, i32* %y.addr, align 4
  %i16 = load i32, i32* %i, align 4
  %add10 = add nsw i32 %i15, %i16
  store i32 %add10, i32* %acc, align 4
  %i17 = load i32, i32* %y.addr, align 4
  %i18 = load i32, i32* %j, align 4
  %sub11 = sub nsw i32 %i17, %i18
  store i32 %sub11, i32* %acc, align 4
  br label %if.end

if.end:                                           ; preds = %bb24, %if.then
  %i19 = load i32, i32* %acc, align 4
  %sub12 = sub nsw i32 %i19, 2
  ret i32 %sub12

bb:                                               ; preds = %while.cond
  br label %while.body

bb20:                                             ; preds = %while.cond
  br label %while.end

bb21:                                             ; preds = %while.cond2
  br label %while.body4

bb22:                                             ; preds = %while.cond2
  br label %while.end8

bb23:                                             ; preds = %while.end8
  br label %if.then

bb24:                                             ; preds = %while.end8
  br label %if.end
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z3g14ii(i32 %n, i32 %x) {
entry:
  %retval = alloca i32, align 4
  %n.addr = alloca i32, align 4
  %x.addr = alloca i32, align 4
  %acc = alloca i32, align 4
  %i = alloca i32, align 4
  store i32 %n, i32* %n.addr, align 4
  store i32 %x, i32* %x.addr, align 4
  %i1 = load i32, i32* %x.addr, align 4
  %add = add nsw i32 %i1, 0
  store i32 %add, i32* %acc, align 4
  store i32 0, i32* %i, align 4
  %i2 = load i32, i32* %x.addr, align 4
  %i3 = load i32, i32* %n.addr, align 4
  %cmp = icmp sge i32 %i2, %i3
  br i1 %cmp, label %bb, label %bb10

if.then:                                          ; preds = %bb
  %i4 = load i32, i32* %acc, align 4
  store i32 %i4, i32* %retval, align 4
  br label %return

if.end:                                           ; preds = %bb10
  %i5 = load i32, i32* %x.addr, align 4
  %cmp1 = icmp sge i32 %i5, 0
  br i1 %cmp1, label %bb11, label %bb12

if.then2:                                         ; preds = %bb11
  %i6 = load i32, i32* %n.addr, align 4
  store i32 %i6, i32* %retval, align 4
  br label %return

if.else:                                          ; preds = %bb12
  %i7 = load i32, i32* %acc, align 4
  %i8 = load i32, i32* %x.addr, align 4
  %sub = sub nsw i32 %i7, %i8
  store i32 %sub, i32* %retval, align 4
  br label %return

return:                                           ; preds = %if.else, %if.then2, %if.then
  %i9 = load i32, i32* %retval, align 4
  ret i32 %i9

bb:                                               ; preds = %entry
  br label %if.then

bb10:                                             ; preds = %entry
  br label %if.end

bb11:                                             ; preds = %if.end
  br label %if.then2

bb12:                                             ; preds = %if.end
  br label %if.else
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z3g15ii(i32 %x, i32 %a) {
entry:
  %retval = alloca i32, align 4
  %x.addr = alloca i32, align 4
  %a.addr = alloca i32, align 4
  %s = alloca i32, align 4
  store i32 %x, i32* %x.addr, align 4
  store i32 %a, i32* %a.addr, align 4
  %i = load i32, i32* %x.addr, align 4
  %i1 = load i32, i32* %a.addr, align 4
  %add = add nsw i32 %i, %i1
  store i32 %add, i32* %s, align 4
  %i2 = load i32, i32* %a.addr, align 4
  %cmp = icmp sge i32 1, %i2
  br i1 %cmp, label %bb, label %bb7

if.then:                                          ; preds = %bb
  %i3 = load i32, i32* %s, align 4
  %i4 = load i32, i32* %s, align 4
  %sub = sub nsw i32 %i3, %i4
  store i32 %sub, i32* %retval, align 4
  br label %return

if.else:                                          ; preds = %bb7
  %i5 = load i32, i32* %s, align 4
  store i32 %i5, i32* %retval, align 4
  br label %return

return:                                           ; preds = %if.else, %if.then
  %i6 = load i32, i32* %retval, align 4
  ret i32 %i6

bb:                                               ; preds = %entry
  br label %if.then

bb7:                                              ; preds = %entry
  br label %if.else
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z3g16iii(i32 %y, i32 %n, i32 %x) {
entry:
  %retval = alloca i32, align 4
  %y.addr = alloca i32, align 4
  %n.addr = alloca i32, align 4
  %x.addr = alloca i32, align 4
  %acc = alloca i32, align 4
  %i = alloca i32, align 4
  store i32 %y, i32* %y.addr, align 4
  store i32 %n, i32* %n.addr, align 4
  store i32 %x, i32* %x.addr, align 4
  %i1 = load i32, i32* %x.addr, align 4
  %mul = mul nsw i32 %i1, 2
  store i32 %mul, i32* %acc, align 4
  store i32 0, i32* %i, align 4
  br label %for.cond

for.cond:                                         ; preds = %for.inc, %entry
  %i2 = load i32, i32* %i, align 4
  %i3 = load i32, i32* %y.addr, align 4
  %cmp = icmp slt i32 %i2, %i3
  br i1 %cmp, label %bb, label %bb18

for.body:                                         ; preds = %bb
  %i4 = load i32, i32* %x.addr, align 4
  %i5 = load i32, i32* %i, align 4
  %cmp1 = icmp sge i32 %i4, %i5
  br i1 %cmp1, label %bb19, label %bb20

if.then:                                          ; preds = %bb19
  %i6 = load i32, i32* %acc, align 4
  %i7 = load i32, i32* %y.addr, align 4
  %add = add nsw i32 %i6, %i7
  store i32 %add, i32* %acc, align 4
  br label %for.inc

if.end:                                           ; preds = %bb20
  %i8 = load i32, i32* %acc, align 4
  store i32 %i8, i32* %retval, align 4
  br label %return

for.inc:                                          ; preds = %if.then
  %i9 = load i32, i32* %i, align 4
  %add2 = add nsw i32 %i9, 1
  store i32 %add2, i32* %i, align 4
  br label %for.cond

for.end:                                          ; preds = %bb18
  %i10 = load i32, i32* %acc, align 4
  %cmp3 = icmp sge i32 1, %i10
  br i1 %cmp3, label %bb21, label %bb22

if.then4:                                         ; preds = %bb21
  %i11 = load i32, i32* %acc, align 4
  %i12 = load i32, i32* %y.addr, align 4
  %sub = sub nsw i32 %i11, %i12
  store i32 %sub, i32* %retval, align 4
  br label %return

if.end5:                                          ; preds = %bb22
  %i13 = load i32, i32* %n.addr, align 4
  %i14 = load i32, i32* %acc, align 4
  %add6 = add nsw i32 %i13, %i14
  store i32 %add6, i32* %acc, align 4
  %i15 = load i32, i32* %acc, align 4
  %i16 = load i32, i32* %y.addr, align 4
  %sub7 = sub nsw i32 %i15, %i16
  store i32 %sub7, i32* %retval, align 4
  br label %return

return:                                           ; preds = %if.end5, %if.then4, %if.end
  %i17 = load i32, i32* %retval, align 4
  ret i32 %i17

bb:                                               ; preds = %for.cond
  br label %for.body

bb18:                                             ; preds = %for.cond
  br label %for.end

bb19:                                             ; preds = %for.body
  br label %if.then

bb20:                                             ; preds = %for.body
  br label %if.end

bb21:                                             ; preds = %for.end
  br label %if.then4

bb22:                                             ; preds = %for.end
  br label %if.end5
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z3g17ii(i32 %a, i32 %y) {
entry:
  %retval = alloca i32, align 4
  %a.addr = alloca i32, align 4
  %y.addr = alloca i32, align 4
  %s = alloca i32, align 4
  %i = alloca i32, align 4
  %j = alloca i32, align 4
  store i32 %a, i32* %a.addr, align 4
  store i32 %y, i32* %y.addr, align 4
  %i1 = load i32, i32* %y.addr, align 4
  %i2 = load i32, i32* %a.addr, align 4
  %add = add nsw i32 %i1, %i2
  store i32 %add, i32* %s, align 4
  store i32 0, i32* %i, align 4
  store i32 0, i32* %j, align 4
  br label %while.cond

while.cond:                                       ; preds = %if.end, %entry
  %i3 = load i32, i32* %i, align 4
  %i4 = load i32, i32* %a.addr, align 4
  %cmp = icmp slt i32 %i3, %i4
  br i1 %cmp, label %bb, label %bb36

while.body:                                       ; preds = %bb
  %i5 = load i32, i32* %s, align 4
  %i6 = load i32, i32* %y.addr, align 4
  %i7 = load i32, i32* %s, align 4
  %sub = sub nsw i32 %i6, %i7
  %sub1 = sub nsw i32 %i5, %sub
  store i32 %sub1, i32* %s, align 4
  %i8 = load i32, i32* %j, align 4
  %i9 = load i32, i32* %s, align 4
  %cmp2 = icmp sle i32 %i8, %i9
  br i1 %cmp2, label %bb37, label %bb38

land.lhs.true:                                    ; preds = %bb37
  %i10 = load i32, i32* %s, align 4
  %i11 = load i32, i32* %j, align 4
  %cmp3 = icmp sle i32 %i10, %i11
  br i1 %cmp3, label %bb39, label %bb40

if.then:                                          ; preds = %bb39
  %i12 = load i32, i32* %s, align 4
  %i13 = load i32, i32* %s, align 4
  %i14 = load i32, i32* %a.addr, align 4
  %sub4 = sub nsw i32 %i13, %i14
  %add5 = add nsw i32 %i12, %sub4
  store i32 %add5, i32* %s, align 4
  br label %if.end

if.else:                                          ; preds = %bb40, %bb38
  %i15 = load i32, i32* %s, align 4
  %i16 = load i32, i32* %j, align 4
  %i17 = load i32, i32* %y.addr, align 4
  %sub6 = sub nsw i32 %i16, %i17
  %sub7 = sub nsw i32 %i15, %sub6
  store i32 %sub7, i32* %s, align 4
  br label %if.end

if.end:                                           ; preds = %if.else, %if.then
  %i18 = load i32, i32* %i, align 4
  %add8 = add nsw i32 %i18, 1
  store i32 %add8, i32* %i, align 4
  br label %while.cond

while.end:                                        ; preds = %bb36
  %i19 = load i32, i32* %i, align 4
  %i20 = load i32, i32* %j, align 4
  %cmp9 = icmp sge i32 %i19, %i20
  br i1 %cmp9, label %bb41, label %bb42

if.then10:                                        ; preds = %bb41
  store i32 0, i32* %i, align 4
  br label %while.cond11

while.cond11:                                     ; preds = %if.end21, %if.then10
  %i21 = load i32, i32* %i, align 4
  %cmp12 = icmp slt i32 %i21, 3
  br i1 %cmp12, label %bb43, label %bb44

while.body13:                                     ; preds = %bb43
  %i22 = load i32, i32* %i, align 4
  %cmp14 = icmp slt i32 %i22, 3
  br i1 %cmp14, label %bb45, label %bb46

if.then15:                                        ; preds = %bb45
  %i23 = load i32, i32* %s, align 4
  %sub16 = sub nsw i32 %i23, 3
  store i32 %sub16, i32* %s, align 4
  %i24 = load i32, i32* %s, align 4
  %i25 = load i32, i32* %a.addr, align 4
  %add17 = add nsw i32 %i24, %i25
  store i32 %add17, i32* %s, align 4
  br label %if.end21

if.else18:                                        ; preds = %bb46
  %i26 = load i32, i32* %s, align 4
  %i27 = load i32, i32* %i, align 4
  %sub19 = sub nsw i32 %i27, 1
  %add20 = add nsw i32 %i26, %sub19
  store i32 %add20, i32* %s, align 4
  br label %if.end21

if.end21:                                         ; preds = %if.else18, %if.then15
  %i28 = load i32, i32* %i, align 4
  %add22 = add nsw i32 %i28, 1
  store i32 %add22, i32* %i, align 4
  br label %while.cond11

while.end23:                                      ; preds = %bb44
  br label %if.end24

if.end24:                                         ; preds = %bb42, %while.end23
  %i29 = load i32, i32* %j, align 4
  %i30 = load i32, i32* %s, align 4
  %cmp25 = icmp eq i32 %i29, %i30
  br i1 %cmp25, label %bb47, label %bb48

if.then26:                                        ; preds = %bb47
  %i31 = load i32, i32* %i, align 4
  store i32 %i31, i32* %s, align 4
  %i32 = load i32, i32* %s, align 4
  %i33 = load i32, i32* %j, align 4
  %add27 = add nsw i32 %i32, %i33
  store i32 %add27, i32* %retval, align 4
  br label %return

if.else28:                                        ; preds = %bb48
  %i34 = load i32, i32* %s, align 4
  store i32 %i34, i32* %retval, align 4
  br label %return

return:                                           ; preds = %if.else28, %if.then26
  %i35 = load i32, i32* %retval, align 4
  ret i32 %i35

bb:                                               ; preds = %while.cond
  br label %while.body

bb36:                                             ; preds = %while.cond
  br label %while.end

bb37:                                             ; preds = %while.body
  br label %land.lhs.true

bb38:                                             ; preds = %while.body
  br label %if.else

bb39:                                             ; preds = %land.lhs.true
  br label %if.then

bb40:                                             ; preds = %land.lhs.true
  br label %if.else

bb41:                                             ; preds = %while.end
  br label %if.then10

bb42:                                             ; preds = %while.end
  br label %if.end24

bb43:                                             ; preds = %while.cond11
  br label %while.body13

bb44:                                             ; preds = %while.cond11
  br label %while.end23

bb45:                                             ; preds = %while.body13
  br label %if.then15

bb46:                                             ; preds = %while.body13
  br label %if.else18

bb47:                                             ; preds = %if.end24
  br label %if.then26

bb48:                                             ; preds = %if.end24
  br label %if.else28
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z3g18ii(i32 %x, i32 %a) {
entry:
  %retval = alloca i32, align 4
  %x.addr = alloca i32, align 4
  %a.addr = alloca i32, align 4
  %a0 = alloca i32, align 4
  %acc = alloca i32, align 4
  %i = alloca i32, align 4
  store i32 %x, i32* %x.addr, align 4
  store i32 %a, i32* %a.addr, align 4
  %i1 = load i32, i32* %a.addr, align 4
  store i32 %i1, i32* %a0, align 4
  %i2 = load i32, i32* %a0, align 4
  %sub = sub nsw i32 %i2, 2
  store i32 %sub, i32* %acc, align 4
  store i32 0, i32* %i, align 4
  store i32 5, i32* %a.addr, align 4
  br label %while.cond

while.cond:                                       ; preds = %if.end, %entry
  %i3 = load i32, i32* %i, align 4
  %i4 = load i32, i32* %x.addr, align 4
  %cmp = icmp slt i32 %i3, %i4
  br i1 %cmp, label %bb, label %bb16

while.body:                                       ; preds = %bb
  %i5 = load i32, i32* %acc, align 4
  %cmp1 = icmp sge i32 %i5, 2
  br i1 %cmp1, label %bb17, label %bb18

if.then:                                          ; preds = %bb17
  %i6 = load i32, i32* %acc, align 4
  %i7 = load i32, i32* %acc, align 4
  %div = sdiv i32 %i7, 3
  %add = add nsw i32 %i6, %div
  store i32 %add, i32* %acc, align 4
  br label %if.end

if.else:                                          ; preds = %bb18
  store i32 0, i32* %a.addr, align 4
  br label %if.end

if.end:                                           ; preds = %if.else, %if.then
  %i8 = load i32, i32* %a.addr, align 4
  %add2 = add nsw i32 0, %i8
  store i32 %add2, i32* %acc, align 4
  %i9 = load i32, i32* %i, align 4
  %add3 = add nsw i32 %i9, 1
  store i32 %add3, i32* %i, align 4
  br label %while.cond

while.end:                                        ; preds = %bb16
  %i10 = load i32, i32* %a.addr, align 4
  %i11 = load i32, i32* %acc, align 4
  %cmp4 = icmp sge i32 %i10, %i11
  br i1 %cmp4, label %bb19, label %bb20

land.lhs.true:                                    ; preds = %bb19
  %i12 = load i32, i32* %a0, align 4
  %cmp5 = icmp slt i32 2, %i12
  br i1 %cmp5, label %bb21, label %bb22

if.then6:                                         ; preds = %bb21
  %i13 = load i32, i32* %a.addr, align 4
  store i32 %i13, i32* %retval, align 4
  br label %return

if.else7:                                         ; preds = %bb22, %bb20
  %i14 = load i32, i32* %acc, align 4
  store i32 %i14, i32* %retval, align 4
  br label %return

return:                                           ; preds = %if.else7, %if.then6
  %i15 = load i32, i32* %retval, align 4
  ret i32 %i15

bb:                                               ; preds = %while.cond
  br label %while.body

bb16:                                             ; preds = %while.cond
  br label %while.end

bb17:                                             ; preds = %while.body
  br label %if.then

bb18:                                             ; preds = %while.body
  br label %if.else

bb19:                                             ; preds = %while.end
  br label %land.lhs.true

bb20:                                             ; preds = %while.end
  br label %if.else7

bb21:                                             ; preds = %land.lhs.true
  br label %if.then6

bb22:                                             ; preds = %land.lhs.true
  br label %if.else7
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z3g19ii(i32 %y, i32 %x) {
entry:
  %y.addr = alloca i32, align 4
  %x.addr = alloca i32, align 4
  %acc = alloca i32, align 4
  store i32 %y, i32* %y.addr, align 4
  store i32 %x, i32* %x.addr, align 4
  %i = load i32, i32* %x.addr, align 4
  %mul = mul nsw i32 %i, 3
  store i32 %mul, i32* %acc, align 4
  %i1 = load i32, i32* %y.addr, align 4
  %i2 = load i32, i32* %x.addr, align 4
  %cmp = icmp sgt i32 %i1, %i2
  br i1 %cmp, label %bb, label %bb9

if.then:                                          ; preds = %bb
  %i3 = load i32, i32* %y.addr, align 4
  %mul1 = mul nsw i32 %i3, 2
  store i32 %mul1, i32* %acc, align 4
  br label %if.end

if.else:                                          ; preds = %bb9
  %i4 = load i32, i32* %x.addr, align 4
  %sub = sub nsw i32 %i4, 0
  store i32 %sub, i32* %acc, align 4
  br label %if.end

if.end:                                           ; preds = %if.else, %if.then
  %i5 = load i32, i32* %x.addr, align 4
  %sub2 = sub nsw i32 0, %i5
  store i32 %sub2, i32* %acc, align 4
  %i6 = load i32, i32* %acc, align 4
  %sub3 = sub nsw i32 %i6, 0
  store i32 %sub3, i32* %acc, align 4
  %i7 = load i32, i32* %acc, align 4
  %i8 = load i32, i32* %y.addr, align 4
  %sub4 = sub nsw i32 %i7, %i8
  ret i32 %sub4

bb:                                               ; preds = %entry
  br label %if.then

bb9:                                              ; preds = %entry
  br label %if.else
}



