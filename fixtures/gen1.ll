
target datalayout = "e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-f80:128-n8:16:32:64-S128"
target triple = "x86_64-pc-linux-gnu"

%"class.std::__1::vector" = type { i32*, i32*, i32* }

; Function Attrs: noinline nounwind optnone uwtable
define dso_local void @_Z3fooii(%"class.std::__1::vector"* noalias sret align 8 %agg.result, i32 %x, i32 %a) {
entry:
  %result.ptr = alloca i8*, align 8
  %x.addr = alloca i32, align 4
  %a.addr = alloca i32, align 4
  %t = alloca i32, align 4
  %nrvo = alloca i1, align 1
  %i = alloca i32, align 4
  %ref.tmp = alloca i32, align 4
  %i1 = bitcast %"class.std::__1::vector"* %agg.result to i8*
  store i8* %i1, i8** %result.ptr, align 8
  store i32 %x, i32* %x.addr, align 4
  store i32 %a, i32* %a.addr, align 4
  %i2 = load i32, i32* %x.addr, align 4
  %div = sdiv i32 %i2, 2
  store i32 %div, i32* %t, align 4
  store i1 false, i1* %nrvo, align 1
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEEC1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  store i32 0, i32* %i, align 4
  br label %for.cond

for.cond:                                         ; preds = %for.inc, %entry
  %i3 = load i32, i32* %i, align 4
  %i4 = load i32, i32* %a.addr, align 4
  %cmp = icmp slt i32 %i3, %i4
  br i1 %cmp, label %bb, label %bb12

for.body:                                         ; preds = %bb
  %i5 = load i32, i32* %t, align 4
  %cmp1 = icmp sle i32 %i5, 2
  br i1 %cmp1, label %bb13, label %bb14

if.then:                                          ; preds = %bb13
  %i6 = load i32, i32* %t, align 4
  %i7 = load i32, i32* %i, align 4
  %sub = sub nsw i32 3, %i7
  %add = add nsw i32 %i6, %sub
  store i32 %add, i32* %t, align 4
  %i8 = load i32, i32* %a.addr, align 4
  %sub2 = sub nsw i32 0, %i8
  store i32 %sub2, i32* %t, align 4
  br label %if.end

if.else:                                          ; preds = %bb14
  %i9 = load i32, i32* %a.addr, align 4
  %i10 = load i32, i32* %t, align 4
  %sub3 = sub nsw i32 %i9, %i10
  store i32 %sub3, i32* %ref.tmp, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp)
  br label %if.end

if.end:                                           ; preds = %if.else, %if.then
  br label %for.inc

for.inc:                                          ; preds = %if.end
  %i11 = load i32, i32* %i, align 4
  %add4 = add nsw i32 %i11, 1
  store i32 %add4, i32* %i, align 4
  br label %for.cond

for.end:                                          ; preds = %bb12
  store i32 0, i32* %t, align 4
  store i1 true, i1* %nrvo, align 1
  %nrvo.val = load i1, i1* %nrvo, align 1
  br i1 %nrvo.val, label %bb15, label %bb16

nrvo.unused:                                      ; preds = %bb16
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEED1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  br label %nrvo.skipdtor

nrvo.skipdtor:                                    ; preds = %bb15, %nrvo.unused
  ret void

bb:                                               ; preds = %for.cond
  br label %for.body

bb12:                                             ; preds = %for.cond
  br label %for.end

bb13:                                             ; preds = %for.body
  br label %if.then

bb14:                                             ; preds = %for.body
  br label %if.else

bb15:                                             ; preds = %for.end
  br label %nrvo.skipdtor

bb16:                                             ; preds = %for.end
  br label %nrvo.unused
}

declare void @_ZNSt3__16vectorIiNS_9allocatorIiEEEC1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24)) unnamed_addr

declare void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24), i32* nonnull align 4 dereferenceable(4))

; Function Attrs: nounwind
declare void @_ZNSt3__16vectorIiNS_9allocatorIiEEED1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24)) unnamed_addr

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z6foo_psii(i32 %n, i32 %a) {
entry:
  %retval = alloca i32, align 4
  %n.addr = alloca i32, align 4
  %a.addr = alloca i32, align 4
  %s = alloca i32, align 4
  %i = alloca i32, align 4
  %j = alloca i32, align 4
  store i32 %n, i32* %n.addr, align 4
  store i32 %a, i32* %a.addr, align 4
  %i1 = load i32, i32* %a.addr, align 4
  %i2 = load i32, i32* %n.addr, align 4
  %add = add nsw i32 %i1, %i2
  store i32 %add, i32* %s, align 4
  store i32 0, i32* %i, align 4
  store i32 0, i32* %j, align 4
  %i3 = load i32, i32* %j, align 4
  store i32 %i3, i32* %s, align 4
  br label %while.cond

while.cond:                                       ; preds = %if.end, %if.then, %entry
  %i4 = load i32, i32* %i, align 4
  %i5 = load i32, i32* %a.addr, align 4
  %cmp = icmp slt i32 %i4, %i5
  br i1 %cmp, label %bb, label %bb29

while.body:                                       ; preds = %bb
  %i6 = load i32, i32* %a.addr, align 4
  %cmp1 = icmp slt i32 1, %i6
  br i1 %cmp1, label %bb30, label %bb31

if.then:                                          ; preds = %bb30
  %i7 = load i32, i32* %s, align 4
  %add2 = add nsw i32 %i7, -3
  store i32 %add2, i32* %s, align 4
  %i8 = load i32, i32* %i, align 4
  %add3 = add nsw i32 %i8, 1
  store i32 %add3, i32* %i, align 4
  br label %while.cond

if.end:                                           ; preds = %bb31
  %i9 = load i32, i32* %n.addr, align 4
  store i32 %i9, i32* %s, align 4
  %i10 = load i32, i32* %i, align 4
  %add4 = add nsw i32 %i10, 1
  store i32 %add4, i32* %i, align 4
  br label %while.cond

while.end:                                        ; preds = %bb29
  %i11 = load i32, i32* %n.addr, align 4
  %i12 = load i32, i32* %i, align 4
  %cmp5 = icmp sgt i32 %i11, %i12
  br i1 %cmp5, label %bb32, label %bb33

if.then6:                                         ; preds = %bb32
  store i32 0, i32* %j, align 4
  br label %while.cond7

while.cond7:                                      ; preds = %if.end15, %if.then6
  %i13 = load i32, i32* %j, align 4
  %i14 = load i32, i32* %n.addr, align 4
  %cmp8 = icmp slt i32 %i13, %i14
  br i1 %cmp8, label %bb34, label %bb35

while.body9:                                      ; preds = %bb34
  %i15 = load i32, i32* %a.addr, align 4
  %cmp10 = icmp sge i32 %i15, 0
  br i1 %cmp10, label %bb36, label %bb37

if.then11:                                        ; preds = %bb36
  %i16 = load i32, i32* %i, align 4
  %i17 = load i32, i32* %n.addr, align 4
  %add12 = add nsw i32 %i16, %i17
  store i32 %add12, i32* %s, align 4
  br label %if.end15

if.else:                                          ; preds = %bb37
  %i18 = load i32, i32* %s, align 4
  %i19 = load i32, i32* %j, align 4
  %i20 = load i32, i32* %s, align 4
  %add13 = add nsw i32 %i19, %i20
  %add14 = add nsw i32 %i18, %add13
  store i32 %add14, i32* %s, align 4
  br label %if.end15

if.end15:                                         ; preds = %if.else, %if.then11
  %i21 = load i32, i32* %j, align 4
  %add16 = add nsw i32 %i21, 1
  store i32 %add16, i32* %j, align 4
  br label %while.cond7

while.end17:                                      ; preds = %bb35
  br label %if.end22

if.else18:                                        ; preds = %bb33
  %i22 = load i32, i32* %a.addr, align 4
  %cmp19 = icmp sgt i32 2, %i22
  br i1 %cmp19, label %bb38, label %bb39

if.then20:                                        ; preds = %bb38
  %i23 = load i32, i32* %a.addr, align 4
  %mul = mul nsw i32 %i23, 2
  store i32 %mul, i32* %s, align 4
  %i24 = load i32, i32* %s, align 4
  store i32 %i24, i32* %retval, align 4
  br label %return

if.else21:                                        ; preds = %bb39
  %i25 = load i32, i32* %s, align 4
  store i32 %i25, i32* %retval, align 4
  br label %return

if.end22:                                         ; preds = %while.end17
  %i26 = load i32, i32* %s, align 4
  %i27 = load i32, i32* %n.addr, align 4
  %add23 = add nsw i32 %i26, %i27
  store i32 %add23, i32* %retval, align 4
  br label %return

return:                                           ; preds = %if.end22, %if.else21, %if.then20
  %i28 = load i32, i32* %retval, align 4
  ret i32 %i28

bb:                                               ; preds = %while.cond
  br label %while.body

bb29:                                             ; preds = %while.cond
  br label %while.end

bb30:                                             ; preds = %while.body
  br label %if.then

bb31:                                             ; preds = %while.body
  br label %if.end

bb32:                                             ; preds = %while.end
  br label %if.then6

bb33:                                             ; preds = %while.end
  br label %if.else18

bb34:                                             ; preds = %while.cond7
  br label %while.body9

bb35:                                             ; preds = %while.cond7
  br label %while.end17

bb36:                                             ; preds = %while.body9
  br label %if.then11

bb37:                                             ; preds = %while.body9
  br label %if.else

bb38:                                             ; preds = %if.else18
  br label %if.then20

bb39:                                             ; preds = %if.else18
  br label %if.else21
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z3bariii(i32 %n, i32 %a, i32 %y) {
entry:
  %retval = alloca i32, align 4
  %n.addr = alloca i32, align 4
  %a.addr = alloca i32, align 4
  %y.addr = alloca i32, align 4
  %n0 = alloca i32, align 4
  %t = alloca i32, align 4
  %i = alloca i32, align 4
  %j = alloca i32, align 4
  store i32 %n, i32* %n.addr, align 4
  store i32 %a, i32* %a.addr, align 4
  store i32 %y, i32* %y.addr, align 4
  %i1 = load i32, i32* %n.addr, align 4
  store i32 %i1, i32* %n0, align 4
  %i2 = load i32, i32* %y.addr, align 4
  %sub = sub nsw i32 1, %i2
  store i32 %sub, i32* %t, align 4
  store i32 0, i32* %i, align 4
  %i3 = load i32, i32* %a.addr, align 4
  %i4 = load i32, i32* %n.addr, align 4
  %cmp = icmp sge i32 %i3, %i4
  br i1 %cmp, label %bb, label %bb18

if.then:                                          ; preds = %bb
  %i5 = load i32, i32* %t, align 4
  %i6 = load i32, i32* %t, align 4
  %add = add nsw i32 %i5, %i6
  store i32 %add, i32* %retval, align 4
  br label %return

if.end:                                           ; preds = %bb18
  store i32 0, i32* %j, align 4
  br label %for.cond

for.cond:                                         ; preds = %for.inc, %if.end
  %i7 = load i32, i32* %i, align 4
  %i8 = load i32, i32* %y.addr, align 4
  %cmp1 = icmp slt i32 %i7, %i8
  br i1 %cmp1, label %bb19, label %bb20

for.body:                                         ; preds = %bb19
  store i32 0, i32* %j, align 4
  br label %while.cond

while.cond:                                       ; preds = %while.body, %for.body
  %i9 = load i32, i32* %j, align 4
  %i10 = load i32, i32* %i, align 4
  %cmp2 = icmp slt i32 %i9, %i10
  br i1 %cmp2, label %bb21, label %bb22

while.body:                                       ; preds = %bb21
  %i11 = load i32, i32* %t, align 4
  %i12 = load i32, i32* %i, align 4
  %add3 = add nsw i32 %i11, %i12
  store i32 %add3, i32* %t, align 4
  %i13 = load i32, i32* %j, align 4
  %add4 = add nsw i32 %i13, 1
  store i32 %add4, i32* %j, align 4
  br label %while.cond

while.end:                                        ; preds = %bb22
  %i14 = load i32, i32* %n.addr, align 4
  %sub5 = sub nsw i32 0, %i14
  store i32 %sub5, i32* %n.addr, align 4
  br label %for.inc

for.inc:                                          ; preds = %while.end
  %i15 = load i32, i32* %i, align 4
  %add6 = add nsw i32 %i15, 1
  store i32 %add6, i32* %i, align 4
  br label %for.cond

for.end:                                          ; preds = %bb20
  %i16 = load i32, i32* %t, align 4
  store i32 %i16, i32* %retval, align 4
  br label %return

return:                                           ; preds = %for.end, %if.then
  %i17 = load i32, i32* %retval, align 4
  ret i32 %i17

bb:                                               ; preds = %entry
  br label %if.then

bb18:                                             ; preds = %entry
  br label %if.end

bb19:                                             ; preds = %for.cond
  br label %for.body

bb20:                                             ; preds = %for.cond
  br label %for.end

bb21:                                             ; preds = %while.cond
  br label %while.body

bb22:                                             ; preds = %while.cond
  br label %while.end
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z10foo_ps_barii(i32 %n, i32 %x) {
entry:
  %retval = alloca i32, align 4
  %n.addr = alloca i32, align 4
  %x.addr = alloca i32, align 4
  %acc = alloca i32, align 4
  store i32 %n, i32* %n.addr, align 4
  store i32 %x, i32* %x.addr, align 4
  store i32 1, i32* %acc, align 4
  %i = load i32, i32* %n.addr, align 4
  %cmp = icmp sgt i32 %i, 2
  br i1 %cmp, label %bb, label %bb9

if.then:                                          ; preds = %bb
  %i1 = load i32, i32* %n.addr, align 4
  %i2 = load i32, i32* %x.addr, align 4
  %sub = sub nsw i32 %i1, %i2
  store i32 %sub, i32* %retval, align 4
  br label %return

if.else:                                          ; preds = %bb9
  %i3 = load i32, i32* %n.addr, align 4
  %sub1 = sub nsw i32 2, %i3
  store i32 %sub1, i32* %acc, align 4
  br label %if.end

if.end:                                           ; preds = %if.else
  %i4 = load i32, i32* %x.addr, align 4
  %i5 = load i32, i32* %acc, align 4
  %cmp2 = icmp sgt i32 %i4, %i5
  br i1 %cmp2, label %bb10, label %bb11

if.then3:                                         ; preds = %bb10
  %i6 = load i32, i32* %acc, align 4
  store i32 %i6, i32* %retval, align 4
  br label %return

if.end4:                                          ; preds = %bb11
  %i7 = load i32, i32* %acc, align 4
  %add = add nsw i32 %i7, 0
  store i32 %add, i32* %retval, align 4
  br label %return

return:                                           ; preds = %if.end4, %if.then3, %if.then
  %i8 = load i32, i32* %retval, align 4
  ret i32 %i8

bb:                                               ; preds = %entry
  br label %if.then

bb9:                                              ; preds = %entry
  br label %if.else

bb10:                                             ; preds = %if.end
  br label %if.then3

bb11:                                             ; preds = %if.end
  br label %if.end4
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z8sum_ps_xii(i32 %a, i32 %n) {
entry:
  %retval = alloca i32, align 4
  %a.addr = alloca i32, align 4
  %n.addr = alloca i32, align 4
  %n0 = alloca i32, align 4
  %acc = alloca i32, align 4
  %i = alloca i32, align 4
  store i32 %a, i32* %a.addr, align 4
  store i32 %n, i32* %n.addr, align 4
  %i1 = load i32, i32* %n.addr, align 4
  store i32 %i1, i32* %n0, align 4
  store i32 0, i32* %acc, align 4
  store i32 0, i32* %i, align 4
  store i32 2, i32* %n.addr, align 4
  br label %while.cond

while.cond:                                       ; preds = %if.end8, %entry
  %i2 = load i32, i32* %i, align 4
  %i3 = load i32, i32* %a.addr, align 4
  %cmp = icmp slt i32 %i2, %i3
  br i1 %cmp, label %bb, label %bb20

while.body:                                       ; preds = %bb
  %i4 = load i32, i32* %i, align 4
  %i5 = load i32, i32* %n0, align 4
  %cmp1 = icmp sgt i32 %i4, %i5
  br i1 %cmp1, label %bb21, label %bb22

land.lhs.true:                                    ; preds = %bb21
  %i6 = load i32, i32* %a.addr, align 4
  %i7 = load i32, i32* %n.addr, align 4
  %cmp2 = icmp sle i32 %i6, %i7
  br i1 %cmp2, label %bb23, label %bb24

land.lhs.true3:                                   ; preds = %bb23
  %i8 = load i32, i32* %n.addr, align 4
  %i9 = load i32, i32* %i, align 4
  %cmp4 = icmp slt i32 %i8, %i9
  br i1 %cmp4, label %bb25, label %bb26

if.then:                                          ; preds = %bb25
  %i10 = load i32, i32* %acc, align 4
  store i32 %i10, i32* %retval, align 4
  br label %return

if.end:                                           ; preds = %bb26, %bb24, %bb22
  %i11 = load i32, i32* %n.addr, align 4
  %cmp5 = icmp sgt i32 %i11, 1
  br i1 %cmp5, label %bb27, label %bb28

lor.lhs.false:                                    ; preds = %bb28
  %i12 = load i32, i32* %a.addr, align 4
  %i13 = load i32, i32* %acc, align 4
  %cmp6 = icmp sle i32 %i12, %i13
  br i1 %cmp6, label %bb29, label %bb30

if.then7:                                         ; preds = %bb29, %bb27
  %i14 = load i32, i32* %acc, align 4
  %i15 = load i32, i32* %a.addr, align 4
  %i16 = load i32, i32* %n.addr, align 4
  %add = add nsw i32 %i15, %i16
  %sub = sub nsw i32 %i14, %add
  store i32 %sub, i32* %acc, align 4
  br label %if.end8

if.end8:                                          ; preds = %bb30, %if.then7
  %i17 = load i32, i32* %i, align 4
  %add9 = add nsw i32 %i17, 1
  store i32 %add9, i32* %i, align 4
  br label %while.cond

while.end:                                        ; preds = %bb20
  %i18 = load i32, i32* %acc, align 4
  store i32 %i18, i32* %retval, align 4
  br label %return

return:                                           ; preds = %while.end, %if.then
  %i19 = load i32, i32* %retval, align 4
  ret i32 %i19

bb:                                               ; preds = %while.cond
  br label %while.body

bb20:                                             ; preds = %while.cond
  br label %while.end

bb21:                                             ; preds = %while.body
  br label %land.lhs.true

bb22:                                             ; preds = %while.body
  br label %if.end

bb23:                                             ; preds = %land.lhs.true
  br label %land.lhs.true3

bb24:                                             ; preds = %land.lhs.true
  br label %if.end

bb25:                                             ; preds = %land.lhs.true3
  br label %if.then

bb26:                                             ; preds = %land.lhs.true3
  br label %if.end

bb27:                                             ; preds = %if.end
  br label %if.then7

bb28:                                             ; preds = %if.end
  br label %lor.lhs.false

bb29:                                             ; preds = %lor.lhs.false
  br label %if.then7

bb30:                                             ; preds = %lor.lhs.false
  br label %if.end8
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z4inv0iii(i32 %x, i32 %y, i32 %a) {
entry:
  %retval = alloca i32, align 4
  %x.addr = alloca i32, align 4
  %y.addr = alloca i32, align 4
  %a.addr = alloca i32, align 4
  %s = alloca i32, align 4
  %i = alloca i32, align 4
  %j = alloca i32, align 4
  store i32 %x, i32* %x.addr, align 4
  store i32 %y, i32* %y.addr, align 4
  store i32 %a, i32* %a.addr, align 4
  %i1 = load i32, i32* %y.addr, align 4
  %add = add nsw i32 %i1, 2
  store i32 %add, i32* %s, align 4
  store i32 0, i32* %i, align 4
  store i32 0, i32* %j, align 4
  %i2 = load i32, i32* %a.addr, align 4
  %mul = mul nsw i32 %i2, 3
  store i32 %mul, i32* %s, align 4
  br label %while.cond

while.cond:                                       ; preds = %if.end, %if.then, %entry
  %i3 = load i32, i32* %i, align 4
  %i4 = load i32, i32* %a.addr, align 4
  %cmp = icmp slt i32 %i3, %i4
  br i1 %cmp, label %bb, label %bb25

while.body:                                       ; preds = %bb
  %i5 = load i32, i32* %i, align 4
  %cmp1 = icmp sgt i32 2, %i5
  br i1 %cmp1, label %bb26, label %bb27

if.then:                                          ; preds = %bb26
  %i6 = load i32, i32* %y.addr, align 4
  %sub = sub nsw i32 3, %i6
  store i32 %sub, i32* %s, align 4
  %i7 = load i32, i32* %i, align 4
  %add2 = add nsw i32 %i7, 1
  store i32 %add2, i32* %i, align 4
  br label %while.cond

if.end:                                           ; preds = %bb27
  %i8 = load i32, i32* %i, align 4
  %sub3 = sub nsw i32 %i8, 1
  store i32 %sub3, i32* %s, align 4
  %i9 = load i32, i32* %i, align 4
  %add4 = add nsw i32 %i9, 1
  store i32 %add4, i32* %i, align 4
  br label %while.cond

while.end:                                        ; preds = %bb25
  store i32 1, i32* %j, align 4
  br label %for.cond

for.cond:                                         ; preds = %for.inc, %while.end
  %i10 = load i32, i32* %j, align 4
  %i11 = load i32, i32* %x.addr, align 4
  %cmp5 = icmp slt i32 %i10, %i11
  br i1 %cmp5, label %bb28, label %bb29

for.body:                                         ; preds = %bb28
  %i12 = load i32, i32* %y.addr, align 4
  %cmp6 = icmp slt i32 %i12, 3
  br i1 %cmp6, label %bb30, label %bb31

if.then7:                                         ; preds = %bb30
  %i13 = load i32, i32* %x.addr, align 4
  %i14 = load i32, i32* %s, align 4
  %sub8 = sub nsw i32 %i13, %i14
  store i32 %sub8, i32* %retval, align 4
  br label %return

if.else:                                          ; preds = %bb31
  %i15 = load i32, i32* %a.addr, align 4
  store i32 %i15, i32* %s, align 4
  br label %if.end9

if.end9:                                          ; preds = %if.else
  %i16 = load i32, i32* %x.addr, align 4
  %cmp10 = icmp slt i32 0, %i16
  br i1 %cmp10, label %bb32, label %bb33

if.then11:                                        ; preds = %bb32
  %i17 = load i32, i32* %s, align 4
  %i18 = load i32, i32* %i, align 4
  %mul12 = mul nsw i32 %i18, 2
  %add13 = add nsw i32 %i17, %mul12
  store i32 %add13, i32* %s, align 4
  br label %for.inc

if.end14:                                         ; preds = %bb33
  %i19 = load i32, i32* %s, align 4
  %i20 = load i32, i32* %a.addr, align 4
  %add15 = add nsw i32 %i19, %i20
  store i32 %add15, i32* %s, align 4
  br label %for.inc

for.inc:                                          ; preds = %if.end14, %if.then11
  %i21 = load i32, i32* %j, align 4
  %add16 = add nsw i32 %i21, 1
  store i32 %add16, i32* %j, align 4
  br label %for.cond

for.end:                                          ; preds = %bb29
  %i22 = load i32, i32* %a.addr, align 4
  %div = sdiv i32 %i22, 2
  store i32 %div, i32* %s, align 4
  %i23 = load i32, i32* %s, align 4
  %sub17 = sub nsw i32 %i23, 2
  store i32 %sub17, i32* %retval, align 4
  br label %return

return:                                           ; preds = %for.end, %if.then7
  %i24 = load i32, i32* %retval, align 4
  ret i32 %i24

bb:                                               ; preds = %while.cond
  br label %while.body

bb25:                                             ; preds = %while.cond
  br label %while.end

bb26:                                             ; preds = %while.body
  br label %if.then

bb27:                                             ; preds = %while.body
  br label %if.end

bb28:                                             ; preds = %for.cond
  br label %for.body

bb29:                                             ; preds = %for.cond
  br label %for.end

bb30:                                             ; preds = %for.body
  br label %if.then7

bb31:                                             ; preds = %for.body
  br label %if.else

bb32:                                             ; preds = %if.end9
  br label %if.then11

bb33:                                             ; preds = %if.end9
  br label %if.end14
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z7baz_inviNSt3__16vectorIiNS_9allocatorIiEEEEii(i32 %y, %"class.std::__1::vector"* %l, i32 %n, i32 %a) {
entry:
  %retval = alloca i32, align 4
  %y.addr = alloca i32, align 4
  %n.addr = alloca i32, align 4
  %a.addr = alloca i32, align 4
  %t = alloca i32, align 4
  %acc = alloca i32, align 4
  %i = alloca i32, align 4
  store i32 %y, i32* %y.addr, align 4
  store i32 %n, i32* %n.addr, align 4
  store i32 %a, i32* %a.addr, align 4
  %i1 = load i32, i32* %n.addr, align 4
  %i2 = load i32, i32* %y.addr, align 4
  %add = add nsw i32 %i1, %i2
  store i32 %add, i32* %t, align 4
  %i3 = load i32, i32* %y.addr, align 4
  store i32 %i3, i32* %acc, align 4
  store i32 0, i32* %i, align 4
  br label %while.cond

while.cond:                                       ; preds = %while.body, %entry
  %i4 = load i32, i32* %i, align 4
  %call = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l)
  %conv = trunc i64 %call to i32
  %cmp = icmp slt i32 %i4, %conv
  br i1 %cmp, label %bb, label %bb16

while.body:                                       ; preds = %bb
  %i5 = load i32, i32* %a.addr, align 4
  %add1 = add nsw i32 %i5, 3
  store i32 %add1, i32* %t, align 4
  %i6 = load i32, i32* %acc, align 4
  %call2 = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l)
  %conv3 = trunc i64 %call2 to i32
  %sub = sub nsw i32 %conv3, 1
  %i7 = load i32, i32* %i, align 4
  %sub4 = sub nsw i32 %sub, %i7
  %conv5 = sext i32 %sub4 to i64
  %call6 = call nonnull align 4 dereferenceable(4) i32* @_ZNSt3__16vectorIiNS_9allocatorIiEEEixEm(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l, i64 %conv5)
  %i8 = load i32, i32* %call6, align 4
  %sub7 = sub nsw i32 %i6, %i8
  store i32 %sub7, i32* %acc, align 4
  %i9 = load i32, i32* %i, align 4
  %add8 = add nsw i32 %i9, 1
  store i32 %add8, i32* %i, align 4
  br label %while.cond

while.end:                                        ; preds = %bb16
  %call9 = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l)
  %conv10 = trunc i64 %call9 to i32
  %i10 = load i32, i32* %a.addr, align 4
  %cmp11 = icmp slt i32 %conv10, %i10
  br i1 %cmp11, label %bb17, label %bb18

if.then:                                          ; preds = %bb17
  %i11 = load i32, i32* %y.addr, align 4
  %i12 = load i32, i32* %a.addr, align 4
  %sub12 = sub nsw i32 %i11, %i12
  %i13 = load i32, i32* %t, align 4
  %add13 = add nsw i32 %sub12, %i13
  store i32 %add13, i32* %retval, align 4
  br label %return

if.else:                                          ; preds = %bb18
  %i14 = load i32, i32* %t, align 4
  store i32 %i14, i32* %retval, align 4
  br label %return

return:                                           ; preds = %if.else, %if.then
  %i15 = load i32, i32* %retval, align 4
  ret i32 %i15

bb:                                               ; preds = %while.cond
  br label %while.body

bb16:                                             ; preds = %while.cond
  br label %while.end

bb17:                                             ; preds = %while.end
  br label %if.then

bb18:                                             ; preds = %while.end
  br label %if.else
}

declare i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24))

declare nonnull align 4 dereferenceable(4) i32* @_ZNSt3__16vectorIiNS_9allocatorIiEEEixEm(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24), i64)

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z2f7ii(i32 %a, i32 %y) {
entry:
  %retval = alloca i32, align 4
  %a.addr = alloca i32, align 4
  %y.addr = alloca i32, align 4
  %t = alloca i32, align 4
  store i32 %a, i32* %a.addr, align 4
  store i32 %y, i32* %y.addr, align 4
  %i = load i32, i32* %a.addr, align 4
  store i32 %i, i32* %t, align 4
  %i1 = load i32, i32* %y.addr, align 4
  %cmp = icmp slt i32 %i1, 0
  br i1 %cmp, label %bb, label %bb9

if.then:                                          ; preds = %bb
  %i2 = load i32, i32* %t, align 4
  %add = add nsw i32 %i2, 1
  store i32 %add, i32* %t, align 4
  br label %if.end

if.end:                                           ; preds = %bb9, %if.then
  %i3 = load i32, i32* %y.addr, align 4
  %i4 = load i32, i32* %a.addr, align 4
  %cmp1 = icmp sge i32 %i3, %i4
  br i1 %cmp1, label %bb10, label %bb11

if.then2:                                         ; preds = %bb10
  %i5 = load i32, i32* %t, align 4
  %i6 = load i32, i32* %a.addr, align 4
  %sub = sub nsw i32 %i5, %i6
  store i32 %sub, i32* %retval, align 4
  br label %return

if.else:                                          ; preds = %bb11
  %i7 = load i32, i32* %t, align 4
  store i32 %i7, i32* %retval, align 4
  br label %return

return:                                           ; preds = %if.else, %if.then2
  %i8 = load i32, i32* %retval, align 4
  ret i32 %i8

bb:                                               ; preds = %entry
  br label %if.then

bb9:                                              ; preds = %entry
  br label %if.end

bb10:                                             ; preds = %if.end
  br label %if.then2

bb11:                                             ; preds = %if.end
  br label %if.else
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z2f8i(i32 %a) {
entry:
  %a.addr = alloca i32, align 4
  %s = alloca i32, align 4
  %i = alloca i32, align 4
  %j = alloca i32, align 4
  store i32 %a, i32* %a.addr, align 4
  %i1 = load i32, i32* %a.addr, align 4
  %sub = sub nsw i32 %i1, 3
  store i32 %sub, i32* %s, align 4
  store i32 0, i32* %i, align 4
  %i2 = load i32, i32* %a.addr, align 4
  %sub1 = sub nsw i32 3, %i2
  store i32 %sub1, i32* %s, align 4
  %i3 = load i32, i32* %i, align 4
  %i4 = load i32, i32* %a.addr, align 4
  %cmp = icmp sgt i32 %i3, %i4
  br i1 %cmp, label %bb, label %bb21

if.then:                                          ; preds = %bb
  %i5 = load i32, i32* %i, align 4
  store i32 %i5, i32* %s, align 4
  %i6 = load i32, i32* %i, align 4
  %i7 = load i32, i32* %s, align 4
  %add = add nsw i32 %i6, %i7
  store i32 %add, i32* %s, align 4
  br label %if.end

if.end:                                           ; preds = %bb21, %if.then
  store i32 1, i32* %s, align 4
  store i32 0, i32* %j, align 4
  br label %for.cond

for.cond:                                         ; preds = %for.inc, %if.end
  %i8 = load i32, i32* %i, align 4
  %i9 = load i32, i32* %a.addr, align 4
  %cmp2 = icmp slt i32 %i8, %i9
  br i1 %cmp2, label %bb22, label %bb23

for.body:                                         ; preds = %bb22
  %i10 = load i32, i32* %a.addr, align 4
  %sub3 = sub nsw i32 0, %i10
  store i32 %sub3, i32* %s, align 4
  store i32 0, i32* %j, align 4
  br label %while.cond

while.cond:                                       ; preds = %while.body, %for.body
  %i11 = load i32, i32* %j, align 4
  %i12 = load i32, i32* %i, align 4
  %add4 = add nsw i32 %i12, 1
  %cmp5 = icmp slt i32 %i11, %add4
  br i1 %cmp5, label %bb24, label %bb25

while.body:                                       ; preds = %bb24
  %i13 = load i32, i32* %s, align 4
  %i14 = load i32, i32* %i, align 4
  %i15 = load i32, i32* %j, align 4
  %add6 = add nsw i32 %i14, %i15
  %add7 = add nsw i32 %i13, %add6
  store i32 %add7, i32* %s, align 4
  %i16 = load i32, i32* %j, align 4
  %add8 = add nsw i32 %i16, 1
  store i32 %add8, i32* %j, align 4
  br label %while.cond

while.end:                                        ; preds = %bb25
  %i17 = load i32, i32* %s, align 4
  %sub9 = sub nsw i32 %i17, 1
  store i32 %sub9, i32* %s, align 4
  br label %for.inc

for.inc:                                          ; preds = %while.end
  %i18 = load i32, i32* %i, align 4
  %add10 = add nsw i32 %i18, 1
  store i32 %add10, i32* %i, align 4
  br label %for.cond

for.end:                                          ; preds = %bb23
  %i19 = load i32, i32* %s, align 4
  %i20 = load i32, i32* %i, align 4
  %add11 = add nsw i32 %i19, %i20
  ret i32 %add11

bb:                                               ; preds = %entry
  br label %if.then

bb21:                                             ; preds = %entry
  br label %if.end

bb22:                                             ; preds = %for.cond
  br label %for.body

bb23:                                             ; preds = %for.cond
  br label %for.end

bb24:                                             ; preds = %while.cond
  br label %while.body

bb25:                                             ; preds = %while.cond
  br label %while.end
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z2f9iii(i32 %n, i32 %x, i32 %y) {
entry:
  %retval = alloca i32, align 4
  %n.addr = alloca i32, align 4
  %x.addr = alloca i32, align 4
  %y.addr = alloca i32, align 4
  %x0 = alloca i32, align 4
  %t = alloca i32, align 4
  %s = alloca i32, align 4
  %i = alloca i32, align 4
  store i32 %n, i32* %n.addr, align 4
  store i32 %x, i32* %x.addr, align 4
  store i32 %y, i32* %y.addr, align 4
  %i1 = load i32, i32* %x.addr, align 4
  store i32 %i1, i32* %x0, align 4
  %i2 = load i32, i32* %x0, align 4
  %add = add nsw i32 %i2, 2
  store i32 %add, i32* %t, align 4
  store i32 -1, i32* %s, align 4
  store i32 0, i32* %i, align 4
  %i3 = load i32, i32* %y.addr, align 4
  %cmp = icmp sgt i32 2, %i3
  br i1 %cmp, label %bb, label %bb7

if.then:                                          ; preds = %bb
  %i4 = load i32, i32* %x.addr, align 4
  %add1 = add nsw i32 %i4, 1
  store i32 %add1, i32* %retval, align 4
  br label %return

if.else:                                          ; preds = %bb7
  %i5 = load i32, i32* %x.addr, align 4
  store i32 %i5, i32* %retval, align 4
  br label %return

return:                                           ; preds = %if.else, %if.then
  %i6 = load i32, i32* %retval, align 4
  ret i32 %i6

bb:                                               ; preds = %entry
  br label %if.then

bb7:                                              ; preds = %entry
  br label %if.else
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local void @_Z3f10iii(%"class.std::__1::vector"* noalias sret align 8 %agg.result, i32 %x, i32 %n, i32 %a) {
entry:
  %result.ptr = alloca i8*, align 8
  %x.addr = alloca i32, align 4
  %n.addr = alloca i32, align 4
  %a.addr = alloca i32, align 4
  %x0 = alloca i32, align 4
  %s = alloca i32, align 4
  %nrvo = alloca i1, align 1
  %i = alloca i32, align 4
  %cleanup.dest.slot = alloca i32, align 4
  %ref.tmp = alloca i32, align 4
  %ref.tmp5 = alloca i32, align 4
  %ref.tmp13 = alloca i32, align 4
  %i1 = bitcast %"class.std::__1::vector"* %agg.result to i8*
  store i8* %i1, i8** %result.ptr, align 8
  store i32 %x, i32* %x.addr, align 4
  store i32 %n, i32* %n.addr, align 4
  store i32 %a, i32* %a.addr, align 4
  %i2 = load i32, i32* %x.addr, align 4
  store i32 %i2, i32* %x0, align 4
  %i3 = load i32, i32* %x.addr, align 4
  store i32 %i3, i32* %s, align 4
  store i1 false, i1* %nrvo, align 1
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEEC1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  store i32 0, i32* %i, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %n.addr)
  %i4 = load i32, i32* %s, align 4
  %i5 = load i32, i32* %a.addr, align 4
  %cmp = icmp sgt i32 %i4, %i5
  br i1 %cmp, label %bb, label %bb23

if.then:                                          ; preds = %bb
  store i32 0, i32* %x.addr, align 4
  br label %if.end

if.else:                                          ; preds = %bb23
  store i1 true, i1* %nrvo, align 1
  store i32 1, i32* %cleanup.dest.slot, align 4
  br label %cleanup

if.end:                                           ; preds = %if.then
  %i6 = load i32, i32* %i, align 4
  %mul = mul nsw i32 %i6, 3
  store i32 %mul, i32* %x.addr, align 4
  br label %while.cond

while.cond:                                       ; preds = %if.end15, %if.end
  %i7 = load i32, i32* %i, align 4
  %i8 = load i32, i32* %n.addr, align 4
  %cmp1 = icmp slt i32 %i7, %i8
  br i1 %cmp1, label %bb24, label %bb25

while.body:                                       ; preds = %bb24
  %i9 = load i32, i32* %a.addr, align 4
  %cmp2 = icmp sgt i32 2, %i9
  br i1 %cmp2, label %bb26, label %bb27

if.then3:                                         ; preds = %bb26
  %i10 = load i32, i32* %x0, align 4
  %div = sdiv i32 %i10, 2
  store i32 %div, i32* %ref.tmp, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp)
  br label %if.end6

if.else4:                                         ; preds = %bb27
  %i11 = load i32, i32* %i, align 4
  %add = add nsw i32 0, %i11
  store i32 %add, i32* %ref.tmp5, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp5)
  br label %if.end6

if.end6:                                          ; preds = %if.else4, %if.then3
  %i12 = load i32, i32* %s, align 4
  %cmp7 = icmp sle i32 2, %i12
  br i1 %cmp7, label %bb28, label %bb29

land.lhs.true:                                    ; preds = %bb28
  %i13 = load i32, i32* %s, align 4
  %i14 = load i32, i32* %x0, align 4
  %cmp8 = icmp sle i32 %i13, %i14
  br i1 %cmp8, label %bb30, label %bb31

if.then9:                                         ; preds = %bb30
  %i15 = load i32, i32* %s, align 4
  %i16 = load i32, i32* %i, align 4
  %i17 = load i32, i32* %x0, align 4
  %add10 = add nsw i32 %i16, %i17
  %add11 = add nsw i32 %i15, %add10
  store i32 %add11, i32* %s, align 4
  %i18 = load i32, i32* %a.addr, align 4
  %i19 = load i32, i32* %i, align 4
  %sub = sub nsw i32 %i18, %i19
  store i32 %sub, i32* %s, align 4
  br label %if.end15

if.else12:                                        ; preds = %bb31, %bb29
  %i20 = load i32, i32* %i, align 4
  %i21 = load i32, i32* %n.addr, align 4
  %add14 = add nsw i32 %i20, %i21
  store i32 %add14, i32* %ref.tmp13, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp13)
  br label %if.end15

if.end15:                                         ; preds = %if.else12, %if.then9
  %i22 = load i32, i32* %i, align 4
  %add16 = add nsw i32 %i22, 1
  store i32 %add16, i32* %i, align 4
  br label %while.cond

while.end:                                        ; preds = %bb25
  store i1 true, i1* %nrvo, align 1
  store i32 1, i32* %cleanup.dest.slot, align 4
  br label %cleanup

cleanup:                                          ; preds = %while.end, %if.else
  %nrvo.val = load i1, i1* %nrvo, align 1
  br i1 %nrvo.val, label %bb32, label %bb33

nrvo.unused:                                      ; preds = %bb33
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEED1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  br label %nrvo.skipdtor

nrvo.skipdtor:                                    ; preds = %bb32, %nrvo.unused
  ret void

bb:                                               ; preds = %entry
  br label %if.then

bb23:                                             ; preds = %entry
  br label %if.else

bb24:                                             ; preds = %while.cond
  br label %while.body

bb25:                                             ; preds = %while.cond
  br label %while.end

bb26:                                             ; preds = %while.body
  br label %if.then3

bb27:                                             ; preds = %while.body
  br label %if.else4

bb28:                                             ; preds = %if.end6
  br label %land.lhs.true

bb29:                                             ; preds = %if.end6
  br label %if.else12

bb30:                                             ; preds = %land.lhs.true
  br label %if.then9

bb31:                                             ; preds = %land.lhs.true
  br label %if.else12

bb32:                                             ; preds = %cleanup
  br label %nrvo.skipdtor

bb33:                                             ; preds = %cleanup
  br label %nrvo.unused
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z3f11iii(i32 %x, i32 %a, i32 %n) {
entry:
  %retval = alloca i32, align 4
  %x.addr = alloca i32, align 4
  %a.addr = alloca i32, align 4
  %n.addr = alloca i32, align 4
  %t = alloca i32, align 4
  store i32 %x, i32* %x.addr, align 4
  store i32 %a, i32* %a.addr, align 4
  store i32 %n, i32* %n.addr, align 4
  %i = load i32, i32* %n.addr, align 4
  %add = add nsw i32 3, %i
  store i32 %add, i32* %t, align 4
  %i1 = load i32, i32* %x.addr, align 4
  %sub = sub nsw i32 0, %i1
  store i32 %sub, i32* %t, align 4
  %i2 = load i32, i32* %a.addr, align 4
  %cmp = icmp slt i32 %i2, 2
  br i1 %cmp, label %bb, label %bb9

if.then:                                          ; preds = %bb
  %i3 = load i32, i32* %n.addr, align 4
  %i4 = load i32, i32* %x.addr, align 4
  %sub1 = sub nsw i32 %i3, %i4
  store i32 %sub1, i32* %t, align 4
  %i5 = load i32, i32* %t, align 4
  %add2 = add nsw i32 %i5, 1
  store i32 %add2, i32* %retval, align 4
  br label %return

if.end:                                           ; preds = %bb9
  %i6 = load i32, i32* %t, align 4
  %i7 = load i32, i32* %x.addr, align 4
  %add3 = add nsw i32 %i6, %i7
  store i32 %add3, i32* %retval, align 4
  br label %return

return:                                           ; preds = %if.end, %if.then
  %i8 = load i32, i32* %retval, align 4
  ret i32 %i8

bb:                                               ; preds = %entry
  br label %if.then

bb9:                                              ; preds = %entry
  br label %if.end
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local void @_Z3f12i(%"class.std::__1::vector"* noalias sret align 8 %agg.result, i32 %x) {
entry:
  %result.ptr = alloca i8*, align 8
  %x.addr = alloca i32, align 4
  %s = alloca i32, align 4
  %nrvo = alloca i1, align 1
  %i = alloca i32, align 4
  %j = alloca i32, align 4
  %ref.tmp = alloca i32, align 4
  %cleanup.dest.slot = alloca i32, align 4
  %i1 = bitcast %"class.std::__1::vector"* %agg.result to i8*
  store i8* %i1, i8** %result.ptr, align 8
  store i32 %x, i32* %x.addr, align 4
  store i32 9, i32* %s, align 4
  store i1 false, i1* %nrvo, align 1
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEEC1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  store i32 0, i32* %i, align 4
  store i32 0, i32* %j, align 4
  br label %while.cond

while.cond:                                       ; preds = %for.end, %entry
  %i2 = load i32, i32* %i, align 4
  %i3 = load i32, i32* %x.addr, align 4
  %cmp = icmp slt i32 %i2, %i3
  br i1 %cmp, label %bb, label %bb14

while.body:                                       ; preds = %bb
  store i32 0, i32* %j, align 4
  br label %for.cond

for.cond:                                         ; preds = %for.inc, %while.body
  %i4 = load i32, i32* %j, align 4
  %i5 = load i32, i32* %i, align 4
  %cmp1 = icmp slt i32 %i4, %i5
  br i1 %cmp1, label %bb15, label %bb16

for.body:                                         ; preds = %bb15
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %x.addr)
  br label %for.inc

for.inc:                                          ; preds = %for.body
  %i6 = load i32, i32* %j, align 4
  %add = add nsw i32 %i6, 1
  store i32 %add, i32* %j, align 4
  br label %for.cond

for.end:                                          ; preds = %bb16
  %i7 = load i32, i32* %x.addr, align 4
  %i8 = load i32, i32* %s, align 4
  %add2 = add nsw i32 %i7, %i8
  store i32 %add2, i32* %ref.tmp, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp)
  %i9 = load i32, i32* %i, align 4
  %add3 = add nsw i32 %i9, 1
  store i32 %add3, i32* %i, align 4
  br label %while.cond

while.end:                                        ; preds = %bb14
  %i10 = load i32, i32* %i, align 4
  %sub = sub nsw i32 %i10, 2
  store i32 %sub, i32* %s, align 4
  %i11 = load i32, i32* %x.addr, align 4
  store i32 %i11, i32* %s, align 4
  %i12 = load i32, i32* %i, align 4
  %i13 = load i32, i32* %x.addr, align 4
  %cmp4 = icmp sle i32 %i12, %i13
  br i1 %cmp4, label %bb17, label %bb18

if.then:                                          ; preds = %bb17
  store i1 true, i1* %nrvo, align 1
  store i32 1, i32* %cleanup.dest.slot, align 4
  br label %cleanup

if.else:                                          ; preds = %bb18
  store i1 true, i1* %nrvo, align 1
  store i32 1, i32* %cleanup.dest.slot, align 4
  br label %cleanup

cleanup:                                          ; preds = %if.else, %if.then
  %nrvo.val = load i1, i1* %nrvo, align 1
  br i1 %nrvo.val, label %bb19, label %bb20

nrvo.unused:                                      ; preds = %bb20
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEED1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  br label %nrvo.skipdtor

nrvo.skipdtor:                                    ; preds = %bb19, %nrvo.unused
  ret void

bb:                                               ; preds = %while.cond
  br label %while.body

bb14:                                             ; preds = %while.cond
  br label %while.end

bb15:                                             ; preds = %for.cond
  br label %for.body

bb16:                                             ; preds = %for.cond
  br label %for.end

bb17:                                             ; preds = %while.end
  br label %if.then

bb18:                                             ; preds = %while.end
  br label %if.else

bb19:                                             ; preds = %cleanup
  br label %nrvo.skipdtor

bb20:                                             ; preds = %cleanup
  br label %nrvo.unused
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local void @_Z3f13iii(%"class.std::__1::vector"* noalias sret align 8 %agg.result, i32 %x, i32 %a, i32 %y) {
entry:
  %result.ptr = alloca i8*, align 8
  %x.addr = alloca i32, align 4
  %a.addr = alloca i32, align 4
  %y.addr = alloca i32, align 4
  %t = alloca i32, align 4
  %nrvo = alloca i1, align 1
  %i = alloca i32, align 4
  %ref.tmp = alloca i32, align 4
  %j = alloca i32, align 4
  %ref.tmp1 = alloca i32, align 4
  %i1 = bitcast %"class.std::__1::vector"* %agg.result to i8*
  store i8* %i1, i8** %result.ptr, align 8
  store i32 %x, i32* %x.addr, align 4
  store i32 %a, i32* %a.addr, align 4
  store i32 %y, i32* %y.addr, align 4
  %i2 = load i32, i32* %x.addr, align 4
  %i3 = load i32, i32* %a.addr, align 4
  %add = add nsw i32 %i2, %i3
  store i32 %add, i32* %t, align 4
  store i1 false, i1* %nrvo, align 1
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEEC1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  store i32 0, i32* %i, align 4
  %i4 = load i32, i32* %x.addr, align 4
  %sub = sub nsw i32 0, %i4
  store i32 %sub, i32* %ref.tmp, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp)
  store i32 0, i32* %j, align 4
  br label %for.cond

for.cond:                                         ; preds = %for.inc, %entry
  %i5 = load i32, i32* %i, align 4
  %i6 = load i32, i32* %x.addr, align 4
  %cmp = icmp slt i32 %i5, %i6
  br i1 %cmp, label %bb, label %bb13

for.body:                                         ; preds = %bb
  %i7 = load i32, i32* %x.addr, align 4
  %i8 = load i32, i32* %a.addr, align 4
  %add2 = add nsw i32 %i7, %i8
  store i32 %add2, i32* %ref.tmp1, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp1)
  store i32 0, i32* %j, align 4
  br label %while.cond

while.cond:                                       ; preds = %while.body, %for.body
  %i9 = load i32, i32* %j, align 4
  %i10 = load i32, i32* %y.addr, align 4
  %cmp3 = icmp slt i32 %i9, %i10
  br i1 %cmp3, label %bb14, label %bb15

while.body:                                       ; preds = %bb14
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %y.addr)
  %i11 = load i32, i32* %j, align 4
  %add4 = add nsw i32 %i11, 1
  store i32 %add4, i32* %j, align 4
  br label %while.cond

while.end:                                        ; preds = %bb15
  br label %for.inc

for.inc:                                          ; preds = %while.end
  %i12 = load i32, i32* %i, align 4
  %add5 = add nsw i32 %i12, 1
  store i32 %add5, i32* %i, align 4
  br label %for.cond

for.end:                                          ; preds = %bb13
  store i1 true, i1* %nrvo, align 1
  %nrvo.val = load i1, i1* %nrvo, align 1
  br i1 %nrvo.val, label %bb16, label %bb17

nrvo.unused:                                      ; preds = %bb17
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEED1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  br label %nrvo.skipdtor

nrvo.skipdtor:                                    ; preds = %bb16, %nrvo.unused
  ret void

bb:                                               ; preds = %for.cond
  br label %for.body

bb13:                                             ; preds = %for.cond
  br label %for.end

bb14:                                             ; preds = %while.cond
  br label %while.body

bb15:                                             ; preds = %while.cond
  br label %while.end

bb16:                                             ; preds = %for.end
  br label %nrvo.skipdtor

bb17:                                             ; preds = %for.end
  br label %nrvo.unused
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z3f14ii(i32 %a, i32 %y) {
entry:
  %retval = alloca i32, align 4
  %a.addr = alloca i32, align 4
  %y.addr = alloca i32, align 4
  %s = alloca i32, align 4
  %i = alloca i32, align 4
  store i32 %a, i32* %a.addr, align 4
  store i32 %y, i32* %y.addr, align 4
  %i1 = load i32, i32* %a.addr, align 4
  store i32 %i1, i32* %s, align 4
  store i32 0, i32* %i, align 4
  %i2 = load i32, i32* %a.addr, align 4
  %sub = sub nsw i32 0, %i2
  store i32 %sub, i32* %s, align 4
  br label %for.cond

for.cond:                                         ; preds = %for.inc, %entry
  %i3 = load i32, i32* %i, align 4
  %cmp = icmp slt i32 %i3, 2
  br i1 %cmp, label %bb, label %bb15

for.body:                                         ; preds = %bb
  %i4 = load i32, i32* %a.addr, align 4
  %cmp1 = icmp sle i32 0, %i4
  br i1 %cmp1, label %bb16, label %bb17

if.then:                                          ; preds = %bb16
  %i5 = load i32, i32* %s, align 4
  %i6 = load i32, i32* %y.addr, align 4
  %i7 = load i32, i32* %s, align 4
  %sub2 = sub nsw i32 %i6, %i7
  %add = add nsw i32 %i5, %sub2
  store i32 %add, i32* %s, align 4
  br label %if.end

if.end:                                           ; preds = %bb17, %if.then
  br label %for.inc

for.inc:                                          ; preds = %if.end
  %i8 = load i32, i32* %i, align 4
  %add3 = add nsw i32 %i8, 1
  store i32 %add3, i32* %i, align 4
  br label %for.cond

for.end:                                          ; preds = %bb15
  %i9 = load i32, i32* %i, align 4
  %i10 = load i32, i32* %s, align 4
  %cmp4 = icmp sge i32 %i9, %i10
  br i1 %cmp4, label %bb18, label %bb19

if.then5:                                         ; preds = %bb18
  %i11 = load i32, i32* %s, align 4
  store i32 %i11, i32* %retval, align 4
  br label %return

if.else:                                          ; preds = %bb19
  store i32 3, i32* %s, align 4
  br label %if.end6

if.end6:                                          ; preds = %if.else
  %i12 = load i32, i32* %s, align 4
  %i13 = load i32, i32* %i, align 4
  %sub7 = sub nsw i32 %i12, %i13
  store i32 %sub7, i32* %retval, align 4
  br label %return

return:                                           ; preds = %if.end6, %if.then5
  %i14 = load i32, i32* %retval, align 4
  ret i32 %i14

bb:                                               ; preds = %for.cond
  br label %for.body

bb15:                                             ; preds = %for.cond
  br label %for.end

bb16:                                             ; preds = %for.body
  br label %if.then

bb17:                                             ; preds = %for.body
  br label %if.end

bb18:                                             ; preds = %for.end
  br label %if.then5

bb19:                                             ; preds = %for.end
  br label %if.else
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z3f15NSt3__16vectorIiNS_9allocatorIiEEEEi(%"class.std::__1::vector"* %l, i32 %y) {
entry:
  %retval = alloca i32, align 4
  %y.addr = alloca i32, align 4
  %ref.tmp = alloca i32, align 4
  %ref.tmp1 = alloca i32, align 4
  store i32 %y, i32* %y.addr, align 4
  %i = load i32, i32* %y.addr, align 4
  %sub = sub nsw i32 %i, 1
  store i32 %sub, i32* %ref.tmp, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l, i32* nonnull align 4 dereferenceable(4) %ref.tmp)
  %i1 = load i32, i32* %y.addr, align 4
  %cmp = icmp sgt i32 %i1, 0
  br i1 %cmp, label %bb, label %bb6

if.then:                                          ; preds = %bb
  %i2 = load i32, i32* %y.addr, align 4
  store i32 %i2, i32* %retval, align 4
  br label %return

if.else:                                          ; preds = %bb6
  %i3 = load i32, i32* %y.addr, align 4
  %sub2 = sub nsw i32 %i3, 0
  store i32 %sub2, i32* %ref.tmp1, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l, i32* nonnull align 4 dereferenceable(4) %ref.tmp1)
  br label %if.end

if.end:                                           ; preds = %if.else
  %call = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l)
  %conv = trunc i64 %call to i32
  %i4 = load i32, i32* %y.addr, align 4
  %sub3 = sub nsw i32 %conv, %i4
  %sub4 = sub nsw i32 3, %sub3
  store i32 %sub4, i32* %retval, align 4
  br label %return

return:                                           ; preds = %if.end, %if.then
  %i5 = load i32, i32* %retval, align 4
  ret i32 %i5

bb:                                               ; preds = %entry
  br label %if.then

bb6:                                              ; preds = %entry
  br label %if.else
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local void @_Z3f16iiNSt3__16vectorIiNS_9allocatorIiEEEEi(%"class.std::__1::vector"* noalias sret align 8 %agg.result, i32 %a, i32 %x, %"class.std::__1::vector"* %l, i32 %n) {
entry:
  %result.ptr = alloca i8*, align 8
  %a.addr = alloca i32, align 4
  %x.addr = alloca i32, align 4
  %n.addr = alloca i32, align 4
  %x0 = alloca i32, align 4
  %t = alloca i32, align 4
  %nrvo = alloca i1, align 1
  %i = alloca i32, align 4
  %ref.tmp = alloca i32, align 4
  %cleanup.dest.slot = alloca i32, align 4
  %ref.tmp2 = alloca i32, align 4
  %ref.tmp8 = alloca i32, align 4
  %i1 = bitcast %"class.std::__1::vector"* %agg.result to i8*
  store i8* %i1, i8** %result.ptr, align 8
  store i32 %a, i32* %a.addr, align 4
  store i32 %x, i32* %x.addr, align 4
  store i32 %n, i32* %n.addr, align 4
  %i2 = load i32, i32* %x.addr, align 4
  store i32 %i2, i32* %x0, align 4
  %i3 = load i32, i32* %a.addr, align 4
  %add = add nsw i32 0, %i3
  store i32 %add, i32* %t, align 4
  store i1 false, i1* %nrvo, align 1
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEEC1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  store i32 0, i32* %i, align 4
  %i4 = load i32, i32* %x.addr, align 4
  %cmp = icmp sle i32 %i4, 1
  br i1 %cmp, label %bb, label %bb13

if.then:                                          ; preds = %bb
  %i5 = load i32, i32* %a.addr, align 4
  %i6 = load i32, i32* %n.addr, align 4
  %add1 = add nsw i32 %i5, %i6
  store i32 %add1, i32* %ref.tmp, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp)
  store i1 true, i1* %nrvo, align 1
  store i32 1, i32* %cleanup.dest.slot, align 4
  br label %cleanup

if.else:                                          ; preds = %bb13
  store i32 2, i32* %t, align 4
  br label %if.end

if.end:                                           ; preds = %if.else
  %i7 = load i32, i32* %x0, align 4
  %sub = sub nsw i32 0, %i7
  store i32 %sub, i32* %ref.tmp2, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp2)
  br label %for.cond

for.cond:                                         ; preds = %for.inc, %if.end
  %i8 = load i32, i32* %i, align 4
  %i9 = load i32, i32* %a.addr, align 4
  %cmp3 = icmp slt i32 %i8, %i9
  br i1 %cmp3, label %bb14, label %bb15

for.body:                                         ; preds = %bb14
  %i10 = load i32, i32* %n.addr, align 4
  %cmp4 = icmp sle i32 %i10, 0
  br i1 %cmp4, label %bb16, label %bb17

if.then5:                                         ; preds = %bb16
  store i1 true, i1* %nrvo, align 1
  store i32 1, i32* %cleanup.dest.slot, align 4
  br label %cleanup

if.end6:                                          ; preds = %bb17
  br label %for.inc

for.inc:                                          ; preds = %if.end6
  %i11 = load i32, i32* %i, align 4
  %add7 = add nsw i32 %i11, 1
  store i32 %add7, i32* %i, align 4
  br label %for.cond

for.end:                                          ; preds = %bb15
  %i12 = load i32, i32* %n.addr, align 4
  %add9 = add nsw i32 1, %i12
  store i32 %add9, i32* %ref.tmp8, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp8)
  store i1 true, i1* %nrvo, align 1
  store i32 1, i32* %cleanup.dest.slot, align 4
  br label %cleanup

cleanup:                                          ; preds = %for.end, %if.then5, %if.then
  %nrvo.val = load i1, i1* %nrvo, align 1
  br i1 %nrvo.val, label %bb18, label %bb19

nrvo.unused:                                      ; preds = %bb19
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEED1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  br label %nrvo.skipdtor

nrvo.skipdtor:                                    ; preds = %bb18, %nrvo.unused
  ret void

bb:                                               ; preds = %entry
  br label %if.then

bb13:                                             ; preds = %entry
  br label %if.else

bb14:                                             ; preds = %for.cond
  br label %for.body

bb15:                                             ; preds = %for.cond
  br label %for.end

bb16:                                             ; preds = %for.body
  br label %if.then5

bb17:                                             ; preds = %for.body
  br label %if.end6

bb18:                                             ; preds = %cleanup
  br label %nrvo.skipdtor

bb19:                                             ; preds = %cleanup
  br label %nrvo.unused
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z3f17ii(i32 %y, i32 %a) {
entry:
  %retval = alloca i32, align 4
  %y.addr = alloca i32, align 4
  %a.addr = alloca i32, align 4
  %s = alloca i32, align 4
  %t = alloca i32, align 4
  %i = alloca i32, align 4
  store i32 %y, i32* %y.addr, align 4
  store i32 %a, i32* %a.addr, align 4
  store i32 -2, i32* %s, align 4
  %i1 = load i32, i32* %y.addr, align 4
  %i2 = load i32, i32* %a.addr, align 4
  %sub = sub nsw i32 %i1, %i2
  store i32 %sub, i32* %t, align 4
  store i32 0, i32* %i, align 4
  %i3 = load i32, i32* %t, align 4
  %cmp = icmp sle i32 %i3, 1
  br i1 %cmp, label %bb, label %bb12

land.lhs.true:                                    ; preds = %bb
  %i4 = load i32, i32* %s, align 4
  %cmp1 = icmp sle i32 1, %i4
  br i1 %cmp1, label %bb13, label %bb14

lor.lhs.false:                                    ; preds = %bb14, %bb12
  %i5 = load i32, i32* %a.addr, align 4
  %i6 = load i32, i32* %y.addr, align 4
  %cmp2 = icmp slt i32 %i5, %i6
  br i1 %cmp2, label %bb15, label %bb16

land.lhs.true3:                                   ; preds = %bb15
  %i7 = load i32, i32* %y.addr, align 4
  %i8 = load i32, i32* %s, align 4
  %cmp4 = icmp sle i32 %i7, %i8
  br i1 %cmp4, label %bb17, label %bb18

if.then:                                          ; preds = %bb17, %bb13
  %i9 = load i32, i32* %s, align 4
  %add = add nsw i32 %i9, 3
  store i32 %add, i32* %retval, align 4
  br label %return

if.else:                                          ; preds = %bb18, %bb16
  %i10 = load i32, i32* %y.addr, align 4
  store i32 %i10, i32* %retval, align 4
  br label %return

return:                                           ; preds = %if.else, %if.then
  %i11 = load i32, i32* %retval, align 4
  ret i32 %i11

bb:                                               ; preds = %entry
  br label %land.lhs.true

bb12:                                             ; preds = %entry
  br label %lor.lhs.false

bb13:                                             ; preds = %land.lhs.true
  br label %if.then

bb14:                                             ; preds = %land.lhs.true
  br label %lor.lhs.false

bb15:                                             ; preds = %lor.lhs.false
  br label %land.lhs.true3

bb16:                                             ; preds = %lor.lhs.false
  br label %if.else

bb17:                                             ; preds = %land.lhs.true3
  br label %if.then

bb18:                                             ; preds = %land.lhs.true3
  br label %if.else
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z3f18NSt3__16vectorIiNS_9allocatorIiEEEEii(%"class.std::__1::vector"* %l, i32 %a, i32 %n) {
entry:
  %retval = alloca i32, align 4
  %a.addr = alloca i32, align 4
  %n.addr = alloca i32, align 4
  %s = alloca i32, align 4
  %i = alloca i32, align 4
  store i32 %a, i32* %a.addr, align 4
  store i32 %n, i32* %n.addr, align 4
  %i1 = load i32, i32* %a.addr, align 4
  store i32 %i1, i32* %s, align 4
  store i32 0, i32* %i, align 4
  %i2 = load i32, i32* %i, align 4
  %i3 = load i32, i32* %n.addr, align 4
  %cmp = icmp slt i32 %i2, %i3
  br i1 %cmp, label %bb, label %bb27

land.lhs.true:                                    ; preds = %bb
  %i4 = load i32, i32* %i, align 4
  %i5 = load i32, i32* %a.addr, align 4
  %cmp1 = icmp slt i32 %i4, %i5
  br i1 %cmp1, label %bb28, label %bb29

land.lhs.true2:                                   ; preds = %bb28
  %i6 = load i32, i32* %a.addr, align 4
  %call = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l)
  %conv = trunc i64 %call to i32
  %cmp3 = icmp slt i32 %i6, %conv
  br i1 %cmp3, label %bb30, label %bb31

if.then:                                          ; preds = %bb30
  %i7 = load i32, i32* %n.addr, align 4
  %i8 = load i32, i32* %a.addr, align 4
  %add = add nsw i32 %i7, %i8
  store i32 %add, i32* %s, align 4
  br label %if.end24

if.else:                                          ; preds = %bb31, %bb29, %bb27
  br label %for.cond

for.cond:                                         ; preds = %for.inc, %if.else
  %i9 = load i32, i32* %i, align 4
  %conv4 = sext i32 %i9 to i64
  %call5 = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l)
  %cmp6 = icmp ult i64 %conv4, %call5
  br i1 %cmp6, label %bb32, label %bb33

for.body:                                         ; preds = %bb32
  %call7 = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l)
  %conv8 = trunc i64 %call7 to i32
  %i10 = load i32, i32* %n.addr, align 4
  %cmp9 = icmp eq i32 %conv8, %i10
  br i1 %cmp9, label %bb34, label %bb35

if.then10:                                        ; preds = %bb34
  %i11 = load i32, i32* %s, align 4
  %i12 = load i32, i32* %i, align 4
  %conv11 = sext i32 %i12 to i64
  %call12 = call nonnull align 4 dereferenceable(4) i32* @_ZNSt3__16vectorIiNS_9allocatorIiEEEixEm(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l, i64 %conv11)
  %i13 = load i32, i32* %call12, align 4
  %add13 = add nsw i32 %i11, %i13
  store i32 %add13, i32* %s, align 4
  br label %if.end

if.end:                                           ; preds = %bb35, %if.then10
  %i14 = load i32, i32* %s, align 4
  %call14 = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l)
  %conv15 = trunc i64 %call14 to i32
  %call16 = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l)
  %conv17 = trunc i64 %call16 to i32
  %sub = sub nsw i32 %conv17, 1
  %i15 = load i32, i32* %i, align 4
  %sub18 = sub nsw i32 %sub, %i15
  %conv19 = sext i32 %sub18 to i64
  %call20 = call nonnull align 4 dereferenceable(4) i32* @_ZNSt3__16vectorIiNS_9allocatorIiEEEixEm(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l, i64 %conv19)
  %i16 = load i32, i32* %call20, align 4
  %sub21 = sub nsw i32 %conv15, %i16
  %add22 = add nsw i32 %i14, %sub21
  store i32 %add22, i32* %s, align 4
  br label %for.inc

for.inc:                                          ; preds = %if.end
  %i17 = load i32, i32* %i, align 4
  %add23 = add nsw i32 %i17, 1
  store i32 %add23, i32* %i, align 4
  br label %for.cond

for.end:                                          ; preds = %bb33
  br label %if.end24

if.end24:                                         ; preds = %for.end, %if.then
  %i18 = load i32, i32* %a.addr, align 4
  %i19 = load i32, i32* %i, align 4
  %cmp25 = icmp slt i32 %i18, %i19
  br i1 %cmp25, label %bb36, label %bb37

if.then26:                                        ; preds = %bb36
  %i20 = load i32, i32* %i, align 4
  %i21 = load i32, i32* %n.addr, align 4
  %add27 = add nsw i32 %i20, %i21
  store i32 %add27, i32* %retval, align 4
  br label %return

if.end28:                                         ; preds = %bb37
  %call29 = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l)
  %conv30 = trunc i64 %call29 to i32
  %i22 = load i32, i32* %i, align 4
  %cmp31 = icmp sge i32 %conv30, %i22
  br i1 %cmp31, label %bb38, label %bb39

land.lhs.true32:                                  ; preds = %bb38
  %i23 = load i32, i32* %a.addr, align 4
  %i24 = load i32, i32* %i, align 4
  %cmp33 = icmp sgt i32 %i23, %i24
  br i1 %cmp33, label %bb40, label %bb41

if.then34:                                        ; preds = %bb40
  %call35 = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l)
  %conv36 = trunc i64 %call35 to i32
  store i32 %conv36, i32* %retval, align 4
  br label %return

if.end37:                                         ; preds = %bb41, %bb39
  %i25 = load i32, i32* %s, align 4
  store i32 %i25, i32* %retval, align 4
  br label %return

return:                                           ; preds = %if.end37, %if.then34, %if.then26
  %i26 = load i32, i32* %retval, align 4
  ret i32 %i26

bb:                                               ; preds = %entry
  br label %land.lhs.true

bb27:                                             ; preds = %entry
  br label %if.else

bb28:                                             ; preds = %land.lhs.true
  br label %land.lhs.true2

bb29:                                             ; preds = %land.lhs.true
  br label %if.else

bb30:                                             ; preds = %land.lhs.true2
  br label %if.then

bb31:                                             ; preds = %land.lhs.true2
  br label %if.else

bb32:                                             ; preds = %for.cond
  br label %for.body

bb33:                                             ; preds = %for.cond
  br label %for.end

bb34:                                             ; preds = %for.body
  br label %if.then10

bb35:                                             ; preds = %for.body
  br label %if.end

bb36:                                             ; preds = %if.end24
  br label %if.then26

bb37:                                             ; preds = %if.end24
  br label %if.end28

bb38:                                             ; preds = %if.end28
  br label %land.lhs.true32

bb39:                                             ; preds = %if.end28
  br label %if.end37

bb40:                                             ; preds = %land.lhs.true32
  br label %if.then34

bb41:                                             ; preds = %land.lhs.true32
  br label %if.end37
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local void @_Z3f19iNSt3__16vectorIiNS_9allocatorIiEEEE(%"class.std::__1::vector"* noalias sret align 8 %agg.result, i32 %a, %"class.std::__1::vector"* %l) {
entry:
  %result.ptr = alloca i8*, align 8
  %a.addr = alloca i32, align 4
  %acc = alloca i32, align 4
  %t = alloca i32, align 4
  %nrvo = alloca i1, align 1
  %i = alloca i32, align 4
  %ref.tmp = alloca i32, align 4
  %ref.tmp6 = alloca i32, align 4
  %ref.tmp8 = alloca i32, align 4
  %j = alloca i32, align 4
  %i1 = bitcast %"class.std::__1::vector"* %agg.result to i8*
  store i8* %i1, i8** %result.ptr, align 8
  store i32 %a, i32* %a.addr, align 4
  %i2 = load i32, i32* %a.addr, align 4
  %sub = sub nsw i32 0, %i2
  store i32 %sub, i32* %acc, align 4
  %call = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l)
  %conv = trunc i64 %call to i32
  store i32 %conv, i32* %t, align 4
  store i1 false, i1* %nrvo, align 1
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEEC1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  store i32 0, i32* %i, align 4
  %i3 = load i32, i32* %t, align 4
  %i4 = load i32, i32* %i, align 4
  %add = add nsw i32 %i3, %i4
  store i32 %add, i32* %ref.tmp, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp)
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %acc)
  %i5 = load i32, i32* %t, align 4
  %call1 = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l)
  %conv2 = trunc i64 %call1 to i32
  %cmp = icmp sge i32 %i5, %conv2
  br i1 %cmp, label %bb, label %bb22

lor.lhs.false:                                    ; preds = %bb22
  %i6 = load i32, i32* %t, align 4
  %call3 = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l)
  %conv4 = trunc i64 %call3 to i32
  %cmp5 = icmp slt i32 %i6, %conv4
  br i1 %cmp5, label %bb23, label %bb24

if.then:                                          ; preds = %bb23, %bb
  %i7 = load i32, i32* %a.addr, align 4
  %i8 = load i32, i32* %acc, align 4
  %sub7 = sub nsw i32 %i7, %i8
  store i32 %sub7, i32* %ref.tmp6, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp6)
  br label %if.end

if.else:                                          ; preds = %bb24
  %i9 = load i32, i32* %t, align 4
  %sub9 = sub nsw i32 0, %i9
  store i32 %sub9, i32* %ref.tmp8, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp8)
  br label %if.end

if.end:                                           ; preds = %if.else, %if.then
  store i32 0, i32* %j, align 4
  br label %for.cond

for.cond:                                         ; preds = %for.inc, %if.end
  %i10 = load i32, i32* %i, align 4
  %conv10 = sext i32 %i10 to i64
  %call11 = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l)
  %cmp12 = icmp ult i64 %conv10, %call11
  br i1 %cmp12, label %bb25, label %bb26

for.body:                                         ; preds = %bb25
  %i11 = load i32, i32* %t, align 4
  %i12 = load i32, i32* %i, align 4
  %conv13 = sext i32 %i12 to i64
  %call14 = call nonnull align 4 dereferenceable(4) i32* @_ZNSt3__16vectorIiNS_9allocatorIiEEEixEm(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l, i64 %conv13)
  %i13 = load i32, i32* %call14, align 4
  %sub15 = sub nsw i32 %i11, %i13
  store i32 %sub15, i32* %acc, align 4
  store i32 0, i32* %j, align 4
  br label %while.cond

while.cond:                                       ; preds = %while.body, %for.body
  %i14 = load i32, i32* %j, align 4
  %i15 = load i32, i32* %i, align 4
  %cmp16 = icmp slt i32 %i14, %i15
  br i1 %cmp16, label %bb27, label %bb28

while.body:                                       ; preds = %bb27
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %j)
  %i16 = load i32, i32* %j, align 4
  %add17 = add nsw i32 %i16, 1
  store i32 %add17, i32* %j, align 4
  br label %while.cond

while.end:                                        ; preds = %bb28
  %i17 = load i32, i32* %acc, align 4
  %i18 = load i32, i32* %t, align 4
  %cmp18 = icmp sge i32 %i17, %i18
  br i1 %cmp18, label %bb29, label %bb30

if.then19:                                        ; preds = %bb29
  %i19 = load i32, i32* %i, align 4
  %conv20 = sext i32 %i19 to i64
  %call21 = call nonnull align 4 dereferenceable(4) i32* @_ZNSt3__16vectorIiNS_9allocatorIiEEEixEm(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l, i64 %conv20)
  %i20 = load i32, i32* %call21, align 4
  store i32 %i20, i32* %acc, align 4
  br label %if.end22

if.end22:                                         ; preds = %bb30, %if.then19
  br label %for.inc

for.inc:                                          ; preds = %if.end22
  %i21 = load i32, i32* %i, align 4
  %add23 = add nsw i32 %i21, 1
  store i32 %add23, i32* %i, align 4
  br label %for.cond

for.end:                                          ; preds = %bb26
  store i1 true, i1* %nrvo, align 1
  %nrvo.val = load i1, i1* %nrvo, align 1
  br i1 %nrvo.val, label %bb31, label %bb32

nrvo.unused:                                      ; preds = %bb32
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEED1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  br label %nrvo.skipdtor

nrvo.skipdtor:                                    ; preds = %bb31, %nrvo.unused
  ret void

bb:                                               ; preds = %entry
  br label %if.then

bb22:                                             ; preds = %entry
  br label %lor.lhs.false

bb23:                                             ; preds = %lor.lhs.false
  br label %if.then

bb24:                                             ; preds = %lor.lhs.false
  br label %if.else

bb25:                                             ; preds = %for.cond
  br label %for.body

bb26:                                             ; preds = %for.cond
  br label %for.end

bb27:                                             ; preds = %while.cond
  br label %while.body

bb28:                                             ; preds = %while.cond
  br label %while.end

bb29:                                             ; preds = %while.end
  br label %if.then19

bb30:                                             ; preds = %while.end
  br label %if.end22

bb31:                                             ; preds = %for.end
  br label %nrvo.skipdtor

bb32:                                             ; preds = %for.end
  br label %nrvo.unused
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local void @_Z3f20iii(%"class.std::__1::vector"* noalias sret align 8 %agg.result, i32 %n, i32 %a, i32 %y) {
entry:
  %result.ptr = alloca i8*, align 8
  %n.addr = alloca i32, align 4
  %a.addr = alloca i32, align 4
  %y.addr = alloca i32, align 4
  %s = alloca i32, align 4
  %t = alloca i32, align 4
  %nrvo = alloca i1, align 1
  %i = alloca i32, align 4
  %cleanup.dest.slot = alloca i32, align 4
  %i1 = bitcast %"class.std::__1::vector"* %agg.result to i8*
  store i8* %i1, i8** %result.ptr, align 8
  store i32 %n, i32* %n.addr, align 4
  store i32 %a, i32* %a.addr, align 4
  store i32 %y, i32* %y.addr, align 4
  %i2 = load i32, i32* %y.addr, align 4
  %i3 = load i32, i32* %n.addr, align 4
  %add = add nsw i32 %i2, %i3
  store i32 %add, i32* %s, align 4
  store i32 3, i32* %t, align 4
  store i1 false, i1* %nrvo, align 1
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEEC1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  store i32 0, i32* %i, align 4
  br label %while.cond

while.cond:                                       ; preds = %if.end, %entry
  %i4 = load i32, i32* %i, align 4
  %i5 = load i32, i32* %a.addr, align 4
  %cmp = icmp slt i32 %i4, %i5
  br i1 %cmp, label %bb, label %bb9

while.body:                                       ; preds = %bb
  %i6 = load i32, i32* %s, align 4
  %cmp1 = icmp sle i32 3, %i6
  br i1 %cmp1, label %bb10, label %bb11

if.then:                                          ; preds = %bb10
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %n.addr)
  store i1 true, i1* %nrvo, align 1
  store i32 1, i32* %cleanup.dest.slot, align 4
  br label %cleanup

if.else:                                          ; preds = %bb11
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %s)
  br label %if.end

if.end:                                           ; preds = %if.else
  store i32 -3, i32* %t, align 4
  %i7 = load i32, i32* %i, align 4
  %add2 = add nsw i32 %i7, 1
  store i32 %add2, i32* %i, align 4
  br label %while.cond

while.end:                                        ; preds = %bb9
  %i8 = load i32, i32* %a.addr, align 4
  %cmp3 = icmp sge i32 0, %i8
  br i1 %cmp3, label %bb12, label %bb13

if.then4:                                         ; preds = %bb12
  store i1 true, i1* %nrvo, align 1
  store i32 1, i32* %cleanup.dest.slot, align 4
  br label %cleanup

if.end5:                                          ; preds = %bb13
  store i1 true, i1* %nrvo, align 1
  store i32 1, i32* %cleanup.dest.slot, align 4
  br label %cleanup

cleanup:                                          ; preds = %if.end5, %if.then4, %if.then
  %nrvo.val = load i1, i1* %nrvo, align 1
  br i1 %nrvo.val, label %bb14, label %bb15

nrvo.unused:                                      ; preds = %bb15
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEED1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  br label %nrvo.skipdtor

nrvo.skipdtor:                                    ; preds = %bb14, %nrvo.unused
  ret void

bb:                                               ; preds = %while.cond
  br label %while.body

bb9:                                              ; preds = %while.cond
  br label %while.end

bb10:                                             ; preds = %while.body
  br label %if.then

bb11:                                             ; preds = %while.body
  br label %if.else

bb12:                                             ; preds = %while.end
  br label %if.then4

bb13:                                             ; preds = %while.end
  br label %if.end5

bb14:                                             ; preds = %cleanup
  br label %nrvo.skipdtor

bb15:                                             ; preds = %cleanup
  br label %nrvo.unused
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z3f21ii(i32 %y, i32 %n) {
entry:
  %retval = alloca i32, align 4
  %y.addr = alloca i32, align 4
  %n.addr = alloca i32, align 4
  %y0 = alloca i32, align 4
  %s = alloca i32, align 4
  %i = alloca i32, align 4
  %j = alloca i32, align 4
  store i32 %y, i32* %y.addr, align 4
  store i32 %n, i32* %n.addr, align 4
  %i1 = load i32, i32* %y.addr, align 4
  store i32 %i1, i32* %y0, align 4
  %i2 = load i32, i32* %y.addr, align 4
  store i32 %i2, i32* %s, align 4
  store i32 0, i32* %i, align 4
  store i32 0, i32* %j, align 4
  %i3 = load i32, i32* %y.addr, align 4
  %cmp = icmp sge i32 3, %i3
  br i1 %cmp, label %bb, label %bb33

if.then:                                          ; preds = %bb
  %i4 = load i32, i32* %i, align 4
  %i5 = load i32, i32* %y.addr, align 4
  %sub = sub nsw i32 %i4, %i5
  %add = add nsw i32 1, %sub
  store i32 %add, i32* %retval, align 4
  br label %return

if.end:                                           ; preds = %bb33
  %i6 = load i32, i32* %y0, align 4
  %add1 = add nsw i32 %i6, 2
  store i32 %add1, i32* %y.addr, align 4
  br label %while.cond

while.cond:                                       ; preds = %if.end8, %if.end
  %i7 = load i32, i32* %i, align 4
  %cmp2 = icmp slt i32 %i7, 3
  br i1 %cmp2, label %bb34, label %bb35

while.body:                                       ; preds = %bb34
  %i8 = load i32, i32* %i, align 4
  store i32 %i8, i32* %s, align 4
  %i9 = load i32, i32* %n.addr, align 4
  %cmp3 = icmp sgt i32 2, %i9
  br i1 %cmp3, label %bb36, label %bb37

if.then4:                                         ; preds = %bb36
  %i10 = load i32, i32* %y0, align 4
  %add5 = add nsw i32 3, %i10
  store i32 %add5, i32* %retval, align 4
  br label %return

if.else:                                          ; preds = %bb37
  %i11 = load i32, i32* %y.addr, align 4
  %i12 = load i32, i32* %j, align 4
  %i13 = load i32, i32* %y.addr, align 4
  %sub6 = sub nsw i32 %i12, %i13
  %add7 = add nsw i32 %i11, %sub6
  store i32 %add7, i32* %y.addr, align 4
  br label %if.end8

if.end8:                                          ; preds = %if.else
  %i14 = load i32, i32* %i, align 4
  %add9 = add nsw i32 %i14, 1
  store i32 %add9, i32* %i, align 4
  br label %while.cond

while.end:                                        ; preds = %bb35
  store i32 1, i32* %i, align 4
  br label %for.cond

for.cond:                                         ; preds = %for.inc, %while.end
  %i15 = load i32, i32* %i, align 4
  %i16 = load i32, i32* %n.addr, align 4
  %cmp10 = icmp slt i32 %i15, %i16
  br i1 %cmp10, label %bb38, label %bb39

for.body:                                         ; preds = %bb38
  %i17 = load i32, i32* %s, align 4
  %i18 = load i32, i32* %i, align 4
  %add11 = add nsw i32 %i17, %i18
  store i32 %add11, i32* %s, align 4
  %i19 = load i32, i32* %y0, align 4
  %cmp12 = icmp sgt i32 %i19, 0
  br i1 %cmp12, label %bb40, label %bb41

land.lhs.true:                                    ; preds = %bb40
  %i20 = load i32, i32* %y.addr, align 4
  %i21 = load i32, i32* %n.addr, align 4
  %cmp13 = icmp sgt i32 %i20, %i21
  br i1 %cmp13, label %bb42, label %bb43

if.then14:                                        ; preds = %bb42
  %i22 = load i32, i32* %s, align 4
  %i23 = load i32, i32* %n.addr, align 4
  %add15 = add nsw i32 %i23, 1
  %add16 = add nsw i32 %i22, %add15
  store i32 %add16, i32* %s, align 4
  br label %if.end17

if.end17:                                         ; preds = %bb43, %bb41, %if.then14
  br label %for.inc

for.inc:                                          ; preds = %if.end17
  %i24 = load i32, i32* %i, align 4
  %add18 = add nsw i32 %i24, 1
  store i32 %add18, i32* %i, align 4
  br label %for.cond

for.end:                                          ; preds = %bb39
  %i25 = load i32, i32* %j, align 4
  %i26 = load i32, i32* %n.addr, align 4
  %cmp19 = icmp sle i32 %i25, %i26
  br i1 %cmp19, label %bb44, label %bb45

if.then20:                                        ; preds = %bb44
  %i27 = load i32, i32* %i, align 4
  %i28 = load i32, i32* %s, align 4
  %add21 = add nsw i32 %i27, %i28
  store i32 %add21, i32* %y.addr, align 4
  %i29 = load i32, i32* %s, align 4
  store i32 %i29, i32* %retval, align 4
  br label %return

if.else22:                                        ; preds = %bb45
  %i30 = load i32, i32* %j, align 4
  %i31 = load i32, i32* %n.addr, align 4
  %add23 = add nsw i32 %i30, %i31
  store i32 %add23, i32* %retval, align 4
  br label %return

return:                                           ; preds = %if.else22, %if.then20, %if.then4, %if.then
  %i32 = load i32, i32* %retval, align 4
  ret i32 %i32

bb:                                               ; preds = %entry
  br label %if.then

bb33:                                             ; preds = %entry
  br label %if.end

bb34:                                             ; preds = %while.cond
  br label %while.body

bb35:                                             ; preds = %while.cond
  br label %while.end

bb36:                                             ; preds = %while.body
  br label %if.then4

bb37:                                             ; preds = %while.body
  br label %if.else

bb38:                                             ; preds = %for.cond
  br label %for.body

bb39:                                             ; preds = %for.cond
  br label %for.end

bb40:                                             ; preds = %for.body
  br label %land.lhs.true

bb41:                                             ; preds = %for.body
  br label %if.end17

bb42:                                             ; preds = %land.lhs.true
  br label %if.then14

bb43:                                             ; preds = %land.lhs.true
  br label %if.end17

bb44:                                             ; preds = %for.end
  br label %if.then20

bb45:                                             ; preds = %for.end
  br label %if.else22
}



