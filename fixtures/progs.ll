
target datalayout = "e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-f80:128-n8:16:32:64-S128"
target triple = "x86_64-pc-linux-gnu"

%"class.std::__1::vector" = type { i32*, i32*, i32* }
%"class.std::__1::vector.0" = type { %"class.std::__1::vector"*, %"class.std::__1::vector"*, %"class.std::__1::vector"* }

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z6sum_sqNSt3__16vectorIiNS_9allocatorIiEEEE(%"class.std::__1::vector"* %xs) {
entry:
  %ss = alloca i32, align 4
  %i = alloca i32, align 4
  store i32 0, i32* %ss, align 4
  store i32 0, i32* %i, align 4
  br label %for.cond

for.cond:                                         ; preds = %for.inc, %entry
  %i1 = load i32, i32* %i, align 4
  %conv = sext i32 %i1 to i64
  %call = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %xs)
  %cmp = icmp ult i64 %conv, %call
  br i1 %cmp, label %bb, label %bb9

for.body:                                         ; preds = %bb
  %i2 = load i32, i32* %ss, align 4
  %i3 = load i32, i32* %i, align 4
  %conv1 = sext i32 %i3 to i64
  %call2 = call nonnull align 4 dereferenceable(4) i32* @_ZNSt3__16vectorIiNS_9allocatorIiEEEixEm(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %xs, i64 %conv1)
  %i4 = load i32, i32* %call2, align 4
  %i5 = load i32, i32* %i, align 4
  %conv3 = sext i32 %i5 to i64
  %call4 = call nonnull align 4 dereferenceable(4) i32* @_ZNSt3__16vectorIiNS_9allocatorIiEEEixEm(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %xs, i64 %conv3)
  %i6 = load i32, i32* %call4, align 4
  %mul = mul nsw i32 %i4, %i6
  %add = add nsw i32 %i2, %mul
  store i32 %add, i32* %ss, align 4
  br label %for.inc

for.inc:                                          ; preds = %for.body
  %i7 = load i32, i32* %i, align 4
  %inc = add nsw i32 %i7, 1
  store i32 %inc, i32* %i, align 4
  br label %for.cond

for.end:                                          ; preds = %bb9
  %i8 = load i32, i32* %ss, align 4
  ret i32 %i8

bb:                                               ; preds = %for.cond
  br label %for.body

bb9:                                              ; preds = %for.cond
  br label %for.end
}

declare i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24))

declare nonnull align 4 dereferenceable(4) i32* @_ZNSt3__16vectorIiNS_9allocatorIiEEEixEm(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24), i64)

; Function Attrs: noinline nounwind optnone uwtable
define dso_local void @_Z5blendNSt3__16vectorIiNS_9allocatorIiEEEES3_i(%"class.std::__1::vector"* noalias sret align 8 %agg.result, %"class.std::__1::vector"* %base, %"class.std::__1::vector"* %active, i32 %opacity) {
entry:
  %result.ptr = alloca i8*, align 8
  %opacity.addr = alloca i32, align 4
  %nrvo = alloca i1, align 1
  %i = alloca i32, align 4
  %ref.tmp = alloca i32, align 4
  %i1 = bitcast %"class.std::__1::vector"* %agg.result to i8*
  store i8* %i1, i8** %result.ptr, align 8
  store i32 %opacity, i32* %opacity.addr, align 4
  store i1 false, i1* %nrvo, align 1
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEEC1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  store i32 0, i32* %i, align 4
  br label %for.cond

for.cond:                                         ; preds = %for.inc, %entry
  %i2 = load i32, i32* %i, align 4
  %conv = sext i32 %i2 to i64
  %call = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %base)
  %cmp = icmp ult i64 %conv, %call
  br i1 %cmp, label %bb, label %bb10

for.body:                                         ; preds = %bb
  %i3 = load i32, i32* %opacity.addr, align 4
  %i4 = load i32, i32* %i, align 4
  %conv1 = sext i32 %i4 to i64
  %call2 = call nonnull align 4 dereferenceable(4) i32* @_ZNSt3__16vectorIiNS_9allocatorIiEEEixEm(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %active, i64 %conv1)
  %i5 = load i32, i32* %call2, align 4
  %mul = mul nsw i32 %i3, %i5
  %i6 = load i32, i32* %opacity.addr, align 4
  %sub = sub nsw i32 1, %i6
  %i7 = load i32, i32* %i, align 4
  %conv3 = sext i32 %i7 to i64
  %call4 = call nonnull align 4 dereferenceable(4) i32* @_ZNSt3__16vectorIiNS_9allocatorIiEEEixEm(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %base, i64 %conv3)
  %i8 = load i32, i32* %call4, align 4
  %mul5 = mul nsw i32 %sub, %i8
  %add = add nsw i32 %mul, %mul5
  store i32 %add, i32* %ref.tmp, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp)
  br label %for.inc

for.inc:                                          ; preds = %for.body
  %i9 = load i32, i32* %i, align 4
  %inc = add nsw i32 %i9, 1
  store i32 %inc, i32* %i, align 4
  br label %for.cond

for.end:                                          ; preds = %bb10
  store i1 true, i1* %nrvo, align 1
  %nrvo.val = load i1, i1* %nrvo, align 1
  br i1 %nrvo.val, label %bb11, label %bb12

nrvo.unused:                                      ; preds = %bb12
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEED1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  br label %nrvo.skipdtor

nrvo.skipdtor:                                    ; preds = %bb11, %nrvo.unused
  ret void

bb:                                               ; preds = %for.cond
  br label %for.body

bb10:                                             ; preds = %for.cond
  br label %for.end

bb11:                                             ; preds = %for.end
  br label %nrvo.skipdtor

bb12:                                             ; preds = %for.end
  br label %nrvo.unused
}

declare void @_ZNSt3__16vectorIiNS_9allocatorIiEEEC1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24)) unnamed_addr

declare void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24), i32* nonnull align 4 dereferenceable(4))

; Function Attrs: nounwind
declare void @_ZNSt3__16vectorIiNS_9allocatorIiEEED1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24)) unnamed_addr

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z8trianglei(i32 %n) {
entry:
  %n.addr = alloca i32, align 4
  %s = alloca i32, align 4
  %i = alloca i32, align 4
  store i32 %n, i32* %n.addr, align 4
  store i32 0, i32* %s, align 4
  store i32 0, i32* %i, align 4
  br label %for.cond

for.cond:                                         ; preds = %for.inc, %entry
  %i1 = load i32, i32* %i, align 4
  %i2 = load i32, i32* %n.addr, align 4
  %cmp = icmp slt i32 %i1, %i2
  br i1 %cmp, label %bb, label %bb7

for.body:                                         ; preds = %bb
  %i3 = load i32, i32* %s, align 4
  %i4 = load i32, i32* %i, align 4
  %add = add nsw i32 %i3, %i4
  store i32 %add, i32* %s, align 4
  br label %for.inc

for.inc:                                          ; preds = %for.body
  %i5 = load i32, i32* %i, align 4
  %inc = add nsw i32 %i5, 1
  store i32 %inc, i32* %i, align 4
  br label %for.cond

for.end:                                          ; preds = %bb7
  %i6 = load i32, i32* %s, align 4
  ret i32 %i6

bb:                                               ; preds = %for.cond
  br label %for.body

bb7:                                              ; preds = %for.cond
  br label %for.end
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local void @_Z4vmaxNSt3__16vectorIiNS_9allocatorIiEEEES3_(%"class.std::__1::vector"* noalias sret align 8 %agg.result, %"class.std::__1::vector"* %base, %"class.std::__1::vector"* %active) {
entry:
  %result.ptr = alloca i8*, align 8
  %nrvo = alloca i1, align 1
  %i = alloca i32, align 4
  %pixel = alloca i32, align 4
  %i1 = bitcast %"class.std::__1::vector"* %agg.result to i8*
  store i8* %i1, i8** %result.ptr, align 8
  store i1 false, i1* %nrvo, align 1
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEEC1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  store i32 0, i32* %i, align 4
  br label %for.cond

for.cond:                                         ; preds = %for.inc, %entry
  %i2 = load i32, i32* %i, align 4
  %conv = sext i32 %i2 to i64
  %call = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %base)
  %cmp = icmp ult i64 %conv, %call
  br i1 %cmp, label %bb, label %bb12

for.body:                                         ; preds = %bb
  %i3 = load i32, i32* %i, align 4
  %conv1 = sext i32 %i3 to i64
  %call2 = call nonnull align 4 dereferenceable(4) i32* @_ZNSt3__16vectorIiNS_9allocatorIiEEEixEm(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %base, i64 %conv1)
  %i4 = load i32, i32* %call2, align 4
  %i5 = load i32, i32* %i, align 4
  %conv3 = sext i32 %i5 to i64
  %call4 = call nonnull align 4 dereferenceable(4) i32* @_ZNSt3__16vectorIiNS_9allocatorIiEEEixEm(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %active, i64 %conv3)
  %i6 = load i32, i32* %call4, align 4
  %cmp5 = icmp sgt i32 %i4, %i6
  br i1 %cmp5, label %bb13, label %bb14

if.then:                                          ; preds = %bb13
  %i7 = load i32, i32* %i, align 4
  %conv6 = sext i32 %i7 to i64
  %call7 = call nonnull align 4 dereferenceable(4) i32* @_ZNSt3__16vectorIiNS_9allocatorIiEEEixEm(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %base, i64 %conv6)
  %i8 = load i32, i32* %call7, align 4
  store i32 %i8, i32* %pixel, align 4
  br label %if.end

if.else:                                          ; preds = %bb14
  %i9 = load i32, i32* %i, align 4
  %conv8 = sext i32 %i9 to i64
  %call9 = call nonnull align 4 dereferenceable(4) i32* @_ZNSt3__16vectorIiNS_9allocatorIiEEEixEm(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %active, i64 %conv8)
  %i10 = load i32, i32* %call9, align 4
  store i32 %i10, i32* %pixel, align 4
  br label %if.end

if.end:                                           ; preds = %if.else, %if.then
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %pixel)
  br label %for.inc

for.inc:                                          ; preds = %if.end
  %i11 = load i32, i32* %i, align 4
  %inc = add nsw i32 %i11, 1
  store i32 %inc, i32* %i, align 4
  br label %for.cond

for.end:                                          ; preds = %bb12
  store i1 true, i1* %nrvo, align 1
  %nrvo.val = load i1, i1* %nrvo, align 1
  br i1 %nrvo.val, label %bb15, label %bb16

nrvo.unused:                                      ; preds = %bb16
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEED1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  br label %nrvo.skipdtor

nrvo.skipdtor:                                    ; preds = %bb15, %nrvo.unused
  ret void

bb:                                               ; preds = %for.cond
  br label %for.body

bb12:                                             ; preds = %for.cond
  br label %for.end

bb13:                                             ; preds = %for.body
  br label %if.then

bb14:                                             ; preds = %for.body
  br label %if.else

bb15:                                             ; preds = %for.end
  br label %nrvo.skipdtor

bb16:                                             ; preds = %for.end
  br label %nrvo.unused
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local void @_Z4maddNSt3__16vectorINS0_IiNS_9allocatorIiEEEENS1_IS3_EEEES5_(%"class.std::__1::vector.0"* noalias sret align 8 %agg.result, %"class.std::__1::vector.0"* %base, %"class.std::__1::vector.0"* %active) {
entry:
  %result.ptr = alloca i8*, align 8
  %nrvo = alloca i1, align 1
  %m = alloca i32, align 4
  %n = alloca i32, align 4
  %row = alloca i32, align 4
  %row_vec = alloca %"class.std::__1::vector", align 8
  %col = alloca i32, align 4
  %pixel = alloca i32, align 4
  %i = bitcast %"class.std::__1::vector.0"* %agg.result to i8*
  store i8* %i, i8** %result.ptr, align 8
  store i1 false, i1* %nrvo, align 1
  call void @_ZNSt3__16vectorINS0_IiNS_9allocatorIiEEEENS1_IS3_EEEC1Ev(%"class.std::__1::vector.0"* nonnull align 8 dereferenceable(24) %agg.result)
  %call = call i64 @_ZNKSt3__16vectorINS0_IiNS_9allocatorIiEEEENS1_IS3_EEE4sizeEv(%"class.std::__1::vector.0"* nonnull align 8 dereferenceable(24) %base)
  %conv = trunc i64 %call to i32
  store i32 %conv, i32* %m, align 4
  %call1 = call nonnull align 8 dereferenceable(24) %"class.std::__1::vector"* @_ZNSt3__16vectorINS0_IiNS_9allocatorIiEEEENS1_IS3_EEEixEm(%"class.std::__1::vector.0"* nonnull align 8 dereferenceable(24) %base, i64 0)
  %call2 = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %call1)
  %conv3 = trunc i64 %call2 to i32
  store i32 %conv3, i32* %n, align 4
  store i32 0, i32* %row, align 4
  br label %for.cond

for.cond:                                         ; preds = %for.inc15, %entry
  %i1 = load i32, i32* %row, align 4
  %i2 = load i32, i32* %m, align 4
  %cmp = icmp slt i32 %i1, %i2
  br i1 %cmp, label %bb, label %bb13

for.body:                                         ; preds = %bb
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEEC1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %row_vec)
  store i32 0, i32* %col, align 4
  br label %for.cond4

for.cond4:                                        ; preds = %for.inc, %for.body
  %i3 = load i32, i32* %col, align 4
  %i4 = load i32, i32* %n, align 4
  %cmp5 = icmp slt i32 %i3, %i4
  br i1 %cmp5, label %bb14, label %bb15

for.body6:                                        ; preds = %bb14
  %i5 = load i32, i32* %row, align 4
  %conv7 = sext i32 %i5 to i64
  %call8 = call nonnull align 8 dereferenceable(24) %"class.std::__1::vector"* @_ZNSt3__16vectorINS0_IiNS_9allocatorIiEEEENS1_IS3_EEEixEm(%"class.std::__1::vector.0"* nonnull align 8 dereferenceable(24) %base, i64 %conv7)
  %i6 = load i32, i32* %col, align 4
  %conv9 = sext i32 %i6 to i64
  %call10 = call nonnull align 4 dereferenceable(4) i32* @_ZNSt3__16vectorIiNS_9allocatorIiEEEixEm(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %call8, i64 %conv9)
  %i7 = load i32, i32* %call10, align 4
  %i8 = load i32, i32* %row, align 4
  %conv11 = sext i32 %i8 to i64
  %call12 = call nonnull align 8 dereferenceable(24) %"class.std::__1::vector"* @_ZNSt3__16vectorINS0_IiNS_9allocatorIiEEEENS1_IS3_EEEixEm(%"class.std::__1::vector.0"* nonnull align 8 dereferenceable(24) %active, i64 %conv11)
  %i9 = load i32, i32* %col, align 4
  %conv13 = sext i32 %i9 to i64
  %call14 = call nonnull align 4 dereferenceable(4) i32* @_ZNSt3__16vectorIiNS_9allocatorIiEEEixEm(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %call12, i64 %conv13)
  %i10 = load i32, i32* %call14, align 4
  %add = add nsw i32 %i7, %i10
  store i32 %add, i32* %pixel, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %row_vec, i32* nonnull align 4 dereferenceable(4) %pixel)
  br label %for.inc

for.inc:                                          ; preds = %for.body6
  %i11 = load i32, i32* %col, align 4
  %inc = add nsw i32 %i11, 1
  store i32 %inc, i32* %col, align 4
  br label %for.cond4

for.end:                                          ; preds = %bb15
  call void @_ZNSt3__16vectorINS0_IiNS_9allocatorIiEEEENS1_IS3_EEE9push_backERKS3_(%"class.std::__1::vector.0"* nonnull align 8 dereferenceable(24) %agg.result, %"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %row_vec)
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEED1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %row_vec)
  br label %for.inc15

for.inc15:                                        ; preds = %for.end
  %i12 = load i32, i32* %row, align 4
  %inc16 = add nsw i32 %i12, 1
  store i32 %inc16, i32* %row, align 4
  br label %for.cond

for.end17:                                        ; preds = %bb13
  store i1 true, i1* %nrvo, align 1
  %nrvo.val = load i1, i1* %nrvo, align 1
  br i1 %nrvo.val, label %bb16, label %bb17

nrvo.unused:                                      ; preds = %bb17
  call void @_ZNSt3__16vectorINS0_IiNS_9allocatorIiEEEENS1_IS3_EEED1Ev(%"class.std::__1::vector.0"* nonnull align 8 dereferenceable(24) %agg.result)
  br label %nrvo.skipdtor

nrvo.skipdtor:                                    ; preds = %bb16, %nrvo.unused
  ret void

bb:                                               ; preds = %for.cond
  br label %for.body

bb13:                                             ; preds = %for.cond
  br label %for.end17

bb14:                                             ; preds = %for.cond4
  br label %for.body6

bb15:                                             ; preds = %for.cond4
  br label %for.end

bb16:                                             ; preds = %for.end17
  br label %nrvo.skipdtor

bb17:                                             ; preds = %for.end17
  br label %nrvo.unused
}

declare void @_ZNSt3__16vectorINS0_IiNS_9allocatorIiEEEENS1_IS3_EEEC1Ev(%"class.std::__1::vector.0"* nonnull align 8 dereferenceable(24)) unnamed_addr

declare i64 @_ZNKSt3__16vectorINS0_IiNS_9allocatorIiEEEENS1_IS3_EEE4sizeEv(%"class.std::__1::vector.0"* nonnull align 8 dereferenceable(24))

declare nonnull align 8 dereferenceable(24) %"class.std::__1::vector"* @_ZNSt3__16vectorINS0_IiNS_9allocatorIiEEEENS1_IS3_EEEixEm(%"class.std::__1::vector.0"* nonnull align 8 dereferenceable(24), i64)

declare void @_ZNSt3__16vectorINS0_IiNS_9allocatorIiEEEENS1_IS3_EEE9push_backERKS3_(%"class.std::__1::vector.0"* nonnull align 8 dereferenceable(24), %"class.std::__1::vector"* nonnull align 8 dereferenceable(24))

; Function Attrs: nounwind
declare void @_ZNSt3__16vectorINS0_IiNS_9allocatorIiEEEENS1_IS3_EEED1Ev(%"class.std::__1::vector.0"* nonnull align 8 dereferenceable(24)) unnamed_addr

; Function Attrs: noinline nounwind optnone uwtable
define dso_local void @_Z6darkenNSt3__16vectorINS0_IiNS_9allocatorIiEEEENS1_IS3_EEEES5_(%"class.std::__1::vector.0"* noalias sret align 8 %agg.result, %"class.std::__1::vector.0"* %base, %"class.std::__1::vector.0"* %active) {
entry:
  %result.ptr = alloca i8*, align 8
  %nrvo = alloca i1, align 1
  %m = alloca i32, align 4
  %n = alloca i32, align 4
  %row = alloca i32, align 4
  %row_vec = alloca %"class.std::__1::vector", align 8
  %col = alloca i32, align 4
  %pixel = alloca i32, align 4
  %i = bitcast %"class.std::__1::vector.0"* %agg.result to i8*
  store i8* %i, i8** %result.ptr, align 8
  store i1 false, i1* %nrvo, align 1
  call void @_ZNSt3__16vectorINS0_IiNS_9allocatorIiEEEENS1_IS3_EEEC1Ev(%"class.std::__1::vector.0"* nonnull align 8 dereferenceable(24) %agg.result)
  %call = call i64 @_ZNKSt3__16vectorINS0_IiNS_9allocatorIiEEEENS1_IS3_EEE4sizeEv(%"class.std::__1::vector.0"* nonnull align 8 dereferenceable(24) %base)
  %conv = trunc i64 %call to i32
  store i32 %conv, i32* %m, align 4
  %call1 = call nonnull align 8 dereferenceable(24) %"class.std::__1::vector"* @_ZNSt3__16vectorINS0_IiNS_9allocatorIiEEEENS1_IS3_EEEixEm(%"class.std::__1::vector.0"* nonnull align 8 dereferenceable(24) %base, i64 0)
  %call2 = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %call1)
  %conv3 = trunc i64 %call2 to i32
  store i32 %conv3, i32* %n, align 4
  store i32 0, i32* %row, align 4
  br label %for.cond

for.cond:                                         ; preds = %for.inc24, %entry
  %i1 = load i32, i32* %row, align 4
  %i2 = load i32, i32* %m, align 4
  %cmp = icmp slt i32 %i1, %i2
  br i1 %cmp, label %bb, label %bb19

for.body:                                         ; preds = %bb
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEEC1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %row_vec)
  store i32 0, i32* %col, align 4
  br label %for.cond4

for.cond4:                                        ; preds = %for.inc, %for.body
  %i3 = load i32, i32* %col, align 4
  %i4 = load i32, i32* %n, align 4
  %cmp5 = icmp slt i32 %i3, %i4
  br i1 %cmp5, label %bb20, label %bb21

for.body6:                                        ; preds = %bb20
  %i5 = load i32, i32* %row, align 4
  %conv7 = sext i32 %i5 to i64
  %call8 = call nonnull align 8 dereferenceable(24) %"class.std::__1::vector"* @_ZNSt3__16vectorINS0_IiNS_9allocatorIiEEEENS1_IS3_EEEixEm(%"class.std::__1::vector.0"* nonnull align 8 dereferenceable(24) %base, i64 %conv7)
  %i6 = load i32, i32* %col, align 4
  %conv9 = sext i32 %i6 to i64
  %call10 = call nonnull align 4 dereferenceable(4) i32* @_ZNSt3__16vectorIiNS_9allocatorIiEEEixEm(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %call8, i64 %conv9)
  %i7 = load i32, i32* %call10, align 4
  %i8 = load i32, i32* %row, align 4
  %conv11 = sext i32 %i8 to i64
  %call12 = call nonnull align 8 dereferenceable(24) %"class.std::__1::vector"* @_ZNSt3__16vectorINS0_IiNS_9allocatorIiEEEENS1_IS3_EEEixEm(%"class.std::__1::vector.0"* nonnull align 8 dereferenceable(24) %active, i64 %conv11)
  %i9 = load i32, i32* %col, align 4
  %conv13 = sext i32 %i9 to i64
  %call14 = call nonnull align 4 dereferenceable(4) i32* @_ZNSt3__16vectorIiNS_9allocatorIiEEEixEm(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %call12, i64 %conv13)
  %i10 = load i32, i32* %call14, align 4
  %cmp15 = icmp sgt i32 %i7, %i10
  br i1 %cmp15, label %bb22, label %bb23

if.then:                                          ; preds = %bb22
  %i11 = load i32, i32* %row, align 4
  %conv16 = sext i32 %i11 to i64
  %call17 = call nonnull align 8 dereferenceable(24) %"class.std::__1::vector"* @_ZNSt3__16vectorINS0_IiNS_9allocatorIiEEEENS1_IS3_EEEixEm(%"class.std::__1::vector.0"* nonnull align 8 dereferenceable(24) %active, i64 %conv16)
  %i12 = load i32, i32* %col, align 4
  %conv18 = sext i32 %i12 to i64
  %call19 = call nonnull align 4 dereferenceable(4) i32* @_ZNSt3__16vectorIiNS_9allocatorIiEEEixEm(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %call17, i64 %conv18)
  %i13 = load i32, i32* %call19, align 4
  store i32 %i13, i32* %pixel, align 4
  br label %if.end

if.else:                                          ; preds = %bb23
  %i14 = load i32, i32* %row, align 4
  %conv20 = sext i32 %i14 to i64
  %call21 = call nonnull align 8 dereferenceable(24) %"class.std::__1::vector"* @_ZNSt3__16vectorINS0_IiNS_9allocatorIiEEEENS1_IS3_EEEixEm(%"class.std::__1::vector.0"* nonnull align 8 dereferenceable(24) %base, i64 %conv20)
  %i15 = load i32, i32* %col, align 4
  %conv22 = sext i32 %i15 to i64
  %call23 = call nonnull align 4 dereferenceable(4) i32* @_ZNSt3__16vectorIiNS_9allocatorIiEEEixEm(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %call21, i64 %conv22)
  %i16 = load i32, i32* %call23, align 4
  store i32 %i16, i32* %pixel, align 4
  br label %if.end

if.end:                                           ; preds = %if.else, %if.then
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %row_vec, i32* nonnull align 4 dereferenceable(4) %pixel)
  br label %for.inc

for.inc:                                          ; preds = %if.end
  %i17 = load i32, i32* %col, align 4
  %inc = add nsw i32 %i17, 1
  store i32 %inc, i32* %col, align 4
  br label %for.cond4

for.end:                                          ; preds = %bb21
  call void @_ZNSt3__16vectorINS0_IiNS_9allocatorIiEEEENS1_IS3_EEE9push_backERKS3_(%"class.std::__1::vector.0"* nonnull align 8 dereferenceable(24) %agg.result, %"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %row_vec)
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEED1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %row_vec)
  br label %for.inc24

for.inc24:                                        ; preds = %for.end
  %i18 = load i32, i32* %row, align 4
  %inc25 = add nsw i32 %i18, 1
  store i32 %inc25, i32* %row, align 4
  br label %for.cond

for.end26:                                        ; preds = %bb19
  store i1 true, i1* %nrvo, align 1
  %nrvo.val = load i1, i1* %nrvo, align 1
  br i1 %nrvo.val, label %bb24, label %bb25

nrvo.unused:                                      ; preds = %bb25
  call void @_ZNSt3__16vectorINS0_IiNS_9allocatorIiEEEENS1_IS3_EEED1Ev(%"class.std::__1::vector.0"* nonnull align 8 dereferenceable(24) %agg.result)
  br label %nrvo.skipdtor

nrvo.skipdtor:                                    ; preds = %bb24, %nrvo.unused
  ret void

bb:                                               ; preds = %for.cond
  br label %for.body

bb19:                                             ; preds = %for.cond
  br label %for.end26

bb20:                                             ; preds = %for.cond4
  br label %for.body6

bb21:                                             ; preds = %for.cond4
  br label %for.end

bb22:                                             ; preds = %for.body6
  br label %if.then

bb23:                                             ; preds = %for.body6
  br label %if.else

bb24:                                             ; preds = %for.end26
  br label %nrvo.skipdtor

bb25:                                             ; preds = %for.end26
  br label %nrvo.unused
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local void @_Z16dissolve_blend_8NSt3__16vectorINS0_IiNS_9allocatorIiEEEENS1_IS3_EEEES5_ii(%"class.std::__1::vector.0"* noalias sret align 8 %agg.result, %"class.std::__1::vector.0"* %base, %"class.std::__1::vector.0"* %active, i32 %opacity, i32 %rand_cons) {
entry:
  %result.ptr = alloca i8*, align 8
  %opacity.addr = alloca i32, align 4
  %rand_cons.addr = alloca i32, align 4
  %nrvo = alloca i1, align 1
  %m = alloca i32, align 4
  %n = alloca i32, align 4
  %row = alloca i32, align 4
  %row_vec = alloca %"class.std::__1::vector", align 8
  %col = alloca i32, align 4
  %rand_val = alloca i32, align 4
  %pixel = alloca i32, align 4
  %i = bitcast %"class.std::__1::vector.0"* %agg.result to i8*
  store i8* %i, i8** %result.ptr, align 8
  store i32 %opacity, i32* %opacity.addr, align 4
  store i32 %rand_cons, i32* %rand_cons.addr, align 4
  store i1 false, i1* %nrvo, align 1
  call void @_ZNSt3__16vectorINS0_IiNS_9allocatorIiEEEENS1_IS3_EEEC1Ev(%"class.std::__1::vector.0"* nonnull align 8 dereferenceable(24) %agg.result)
  %call = call i64 @_ZNKSt3__16vectorINS0_IiNS_9allocatorIiEEEENS1_IS3_EEE4sizeEv(%"class.std::__1::vector.0"* nonnull align 8 dereferenceable(24) %base)
  %conv = trunc i64 %call to i32
  store i32 %conv, i32* %m, align 4
  %call1 = call nonnull align 8 dereferenceable(24) %"class.std::__1::vector"* @_ZNSt3__16vectorINS0_IiNS_9allocatorIiEEEENS1_IS3_EEEixEm(%"class.std::__1::vector.0"* nonnull align 8 dereferenceable(24) %base, i64 0)
  %call2 = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %call1)
  %conv3 = trunc i64 %call2 to i32
  store i32 %conv3, i32* %n, align 4
  store i32 0, i32* %row, align 4
  br label %for.cond

for.cond:                                         ; preds = %for.inc16, %entry
  %i1 = load i32, i32* %row, align 4
  %i2 = load i32, i32* %m, align 4
  %cmp = icmp slt i32 %i1, %i2
  br i1 %cmp, label %bb, label %bb16

for.body:                                         ; preds = %bb
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEEC1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %row_vec)
  store i32 0, i32* %col, align 4
  br label %for.cond4

for.cond4:                                        ; preds = %for.inc, %for.body
  %i3 = load i32, i32* %col, align 4
  %i4 = load i32, i32* %n, align 4
  %cmp5 = icmp slt i32 %i3, %i4
  br i1 %cmp5, label %bb17, label %bb18

for.body6:                                        ; preds = %bb17
  %i5 = load i32, i32* %rand_cons.addr, align 4
  %rem = srem i32 %i5, 100
  %add = add nsw i32 %rem, 1
  %div = sdiv i32 %add, 100
  store i32 %div, i32* %rand_val, align 4
  %i6 = load i32, i32* %opacity.addr, align 4
  %i7 = load i32, i32* %rand_val, align 4
  %sub = sub nsw i32 %i6, %i7
  %cmp7 = icmp sge i32 %sub, 0
  br i1 %cmp7, label %bb19, label %bb20

if.then:                                          ; preds = %bb19
  %i8 = load i32, i32* %row, align 4
  %conv8 = sext i32 %i8 to i64
  %call9 = call nonnull align 8 dereferenceable(24) %"class.std::__1::vector"* @_ZNSt3__16vectorINS0_IiNS_9allocatorIiEEEENS1_IS3_EEEixEm(%"class.std::__1::vector.0"* nonnull align 8 dereferenceable(24) %active, i64 %conv8)
  %i9 = load i32, i32* %col, align 4
  %conv10 = sext i32 %i9 to i64
  %call11 = call nonnull align 4 dereferenceable(4) i32* @_ZNSt3__16vectorIiNS_9allocatorIiEEEixEm(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %call9, i64 %conv10)
  %i10 = load i32, i32* %call11, align 4
  store i32 %i10, i32* %pixel, align 4
  br label %if.end

if.else:                                          ; preds = %bb20
  %i11 = load i32, i32* %row, align 4
  %conv12 = sext i32 %i11 to i64
  %call13 = call nonnull align 8 dereferenceable(24) %"class.std::__1::vector"* @_ZNSt3__16vectorINS0_IiNS_9allocatorIiEEEENS1_IS3_EEEixEm(%"class.std::__1::vector.0"* nonnull align 8 dereferenceable(24) %base, i64 %conv12)
  %i12 = load i32, i32* %col, align 4
  %conv14 = sext i32 %i12 to i64
  %call15 = call nonnull align 4 dereferenceable(4) i32* @_ZNSt3__16vectorIiNS_9allocatorIiEEEixEm(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %call13, i64 %conv14)
  %i13 = load i32, i32* %call15, align 4
  store i32 %i13, i32* %pixel, align 4
  br label %if.end

if.end:                                           ; preds = %if.else, %if.then
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %row_vec, i32* nonnull align 4 dereferenceable(4) %pixel)
  br label %for.inc

for.inc:                                          ; preds = %if.end
  %i14 = load i32, i32* %col, align 4
  %inc = add nsw i32 %i14, 1
  store i32 %inc, i32* %col, align 4
  br label %for.cond4

for.end:                                          ; preds = %bb18
  call void @_ZNSt3__16vectorINS0_IiNS_9allocatorIiEEEENS1_IS3_EEE9push_backERKS3_(%"class.std::__1::vector.0"* nonnull align 8 dereferenceable(24) %agg.result, %"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %row_vec)
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEED1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %row_vec)
  br label %for.inc16

for.inc16:                                        ; preds = %for.end
  %i15 = load i32, i32* %row, align 4
  %inc17 = add nsw i32 %i15, 1
  store i32 %inc17, i32* %row, align 4
  br label %for.cond

for.end18:                                        ; preds = %bb16
  store i1 true, i1* %nrvo, align 1
  %nrvo.val = load i1, i1* %nrvo, align 1
  br i1 %nrvo.val, label %bb21, label %bb22

nrvo.unused:                                      ; preds = %bb22
  call void @_ZNSt3__16vectorINS0_IiNS_9allocatorIiEEEENS1_IS3_EEED1Ev(%"class.std::__1::vector.0"* nonnull align 8 dereferenceable(24) %agg.result)
  br label %nrvo.skipdtor

nrvo.skipdtor:                                    ; preds = %bb21, %nrvo.unused
  ret void

bb:                                               ; preds = %for.cond
  br label %for.body

bb16:                                             ; preds = %for.cond
  br label %for.end18

bb17:                                             ; preds = %for.cond4
  br label %for.body6

bb18:                                             ; preds = %for.cond4
  br label %for.end

bb19:                                             ; preds = %for.body6
  br label %if.then

bb20:                                             ; preds = %for.body6
  br label %if.else

bb21:                                             ; preds = %for.end18
  br label %nrvo.skipdtor

bb22:                                             ; preds = %for.end18
  br label %nrvo.unused
}



