HELPERS = '''
func build() df.DataBuilder { return df.DataBuilder{RawData: df.NewRawData()} }

func wantInts(t *testing.T, what string, f *df.DataFrame, col string, want ...int) {
	t.Helper()
	a := f.Ints(col)
	ok := a.Size() == len(want)
	for i := 0; ok && i < len(want); i++ {
		ok = a.Get(i) == want[i]
	}
	if !ok {
		got := make([]int, a.Size())
		for i := range got {
			got[i] = a.Get(i)
		}
		t.Fatalf("%s: got %v, want %v", what, got, want)
	}
}

func wantFloats(t *testing.T, what string, f *df.DataFrame, col string, want ...float64) {
	t.Helper()
	a := f.Floats(col)
	ok := a.Size() == len(want)
	for i := 0; ok && i < len(want); i++ {
		d := a.Get(i) - want[i]
		ok = d < 1e-9 && d > -1e-9
	}
	if !ok {
		got := make([]float64, a.Size())
		for i := range got {
			got[i] = a.Get(i)
		}
		t.Fatalf("%s: got %v, want %v", what, got, want)
	}
}

var _, _, _ = build, wantInts, wantFloats
'''
SEEDS = []
def seed(id, prop, pkg, edits, needs, breaks, demo, imports=(), race=False):
    SEEDS.append(dict(id=id, prop=prop, pkg=pkg, edits=edits, needs=needs, breaks=breaks, demo=demo, imports=list(imports), race=race))

V='dataframe/view.go'; R='dataframe/raw_data.go'; I='dataframe/inplace.go'; D='dataframe/dataframe.go'

seed('C01-reset-index-aliases', 'C01', 'dataframe', [(V, '''  result.indices = make([]int, len(df.indices))
  copy(result.indices, df.indices)
  sort.Ints(result.indices)

  return result
}
''','''  sort.Ints(result.indices)

  return result
}
''')], 'a view with altered indices on which ResetIndexView is called, then reading the original view',
'ResetIndexView sorts the index slice it shares with the dataframe it was called on, which silently reorders that dataframe', '''
	f := build().AddInts("a", 10, 11, 12).ToDataFrame()
	v := f.IndexView([]int{2, 0, 1})
	r := v.ResetIndexView()
	wantInts(t, "reset view", r, "a", 10, 11, 12)
	wantInts(t, "original view", v, "a", 12, 10, 11)
''')

seed('C02-test-size-rounded', 'C02', 'dataframe', [(V, '  n := int(float64(nRows) * testingRatio)\n', '  n := int(float64(nRows) * testingRatio + 0.5)\n')],
'a number of rows and a ratio whose product has a fractional part of at least one half', 'the size of the test set is rounded instead of truncated', '''
	f := build().AddInts("a", 0, 1, 2, 3, 4).ToDataFrame()
	_, test := f.SplitTrainTestViews(0.5)
	wantInts(t, "test set", test, "a", 3, 4)
''')

seed('C07-cut-keeps-tail', 'C07', 'dataframe', [(I, '      df.ints[col] = vals[from:to]\n', '      df.ints[col] = vals[from:]\n')],
'a contiguous slice of more than 10 rows per column (the reallocating path of cut), followed by a deep copy',
'the int columns of a contiguous slice keep the rows after its end, so that a deep copy of the slice carries extra cells', '''
	vals := make([]int, 30)
	for i := range vals {
		vals[i] = i
	}
	f := build().AddInts("a", vals...).ToDataFrame()
	parts := f.SplitView(15)
	c := parts[0].Copy()
	if n := c.NumAllocatedRows(); n != 15 {
		t.Fatalf("%d rows in the copy of a part of 15 rows", n)
	}
''')

seed('C03-sorted-bool-positions', 'C03', 'dataframe', [(V, '        first = append(first, j)\n', '        first = append(first, i)\n')],
'sorting by a bool column on a view whose indices are not 0..n-1', 'SortedView mixes positions in the backing data with positions in the view', '''
	f := build().AddBools("b", true, false, true, false).AddInts("a", 0, 1, 2, 3).ToDataFrame()
	v := f.IndexView([]int{1, 0, 3, 2}).SortedView("b")
	wantInts(t, "sorted", v, "a", 1, 3, 0, 2)
''')

seed('C03-top-more-than-rows', 'C03', 'dataframe', [(V, '''    if !sorted {
      return df.View()
    } else {
      n = len(df.indices)
    }
''','''    if !sorted || n > len(df.indices) {
      return df.View()
    }
''')],
'TopView with sorted=true and more rows requested than there are', 'the rows are returned unsorted', '''
	f := build().AddInts("a", 3, 1, 2).ToDataFrame()
	wantInts(t, "top 4", f.TopView("a", 4, true, true), "a", 1, 2, 3)
''')

seed('C04-overwrite-replaces-storage', 'C04', 'dataframe', [(I, '''    df.AllocFloats(colName)
    col = df.floats[colName]
  }
  for j, i := range df.indices {
    col[i] = values[j]
  }
''', '''    df.AllocFloats(colName)
    col = df.floats[colName]
  }
  if df.indexViewed {
    for j, i := range df.indices {
      col[i] = values[j]
    }
  } else {
    df.floats[colName] = append(make([]float64, 0, len(col)), values[:len(col)]...)
  }
''')], 'OverwriteFloats64 on a contiguous dataframe while a shallow copy or a column view of it is alive',
'the column gets a new storage, so dataframes that share the column do not see the write', '''
	f := build().AddFloats("a", 1, 2, 3).ToDataFrame()
	s := f.ShallowCopy()
	f.OverwriteFloats64("a", []float64{4, 5, 6})
	wantFloats(t, "shallow copy", s, "a", 4, 5, 6)
''')

seed('C05-rename-forgets-sharing', 'C05', 'dataframe', [(R, '''  if data.shared.contains(oldName) {
    data.shared.remove(oldName)
    data.shared.add(newName)
  }
''','''  data.shared.remove(oldName)
''')], 'a view is restructured, a column renamed, and the new name is detached in place with Unshare',
'Rename loses the information that the column is shared, so Unshare does not copy it', '''
	f := build().AddInts("a", 1, 2).AddInts("b", 3, 4).ToDataFrame()
	v := f.View()
	v.Rename("a", "c")
	v.Unshare("c")
	v.Ints("c").Set(0, 42)
	wantInts(t, "parent", f, "a", 1, 2)
''')

seed('C05-shared-header-aliased', 'C05', 'dataframe', [(R, '''  data.shared = tmp.shared  // all columns
''','''  data.shared.add(tmp.shared.NameList()...)  // all columns
''')], 'two restructured views of the same shallow copy, then a detachment on each',
'the two views share one set of shared columns: detaching a column on the first makes the second believe that it already owns it', '''
	f := build().AddInts("a", 1, 2).AddInts("b", 3, 4).ToDataFrame()
	s := f.ShallowCopy()
	v1, v2 := s.View(), s.View()
	v1.AllocInts("x")
	v2.AllocInts("x")
	v1.Unshare("a")
	v2.Unshare("a")
	v2.Ints("a").Set(0, 42)
	wantInts(t, "parent", f, "a", 1, 2)
''')

seed('C06-conversion-on-borrowed-maps', 'C06', 'dataframe', [(R, '''func (data *RawData) IntToFloats(columns...string) {
  if data.sharedMaps {
''','''func (data *RawData) IntToFloats(columns...string) {
  if data.sharedMaps && data.shared.Num() == 0 {
''')], 'IntToFloats on a view of a dataframe that itself shares columns (shallow copy, column view...)',
'the conversion is done on the maps of the parent', '''
	f := build().AddInts("a", 1, 2).AddInts("b", 3, 4).ToDataFrame()
	s := f.ShallowCopy()
	s.View().IntToFloats("a")
	wantInts(t, "parent", s, "a", 1, 2)
''')

seed('C07-rename-keeps-string-mark', 'C07', 'dataframe', [(R, '''      data.stringHeader.remove(oldName)
      data.stringHeader.add(newName)
''','''      data.stringHeader.add(newName)
''')], 'renaming a string column, then reusing the old name for an object column or listing the string columns',
'the old name remains in the string header', '''
	f := build().AddStrings("a", "x", "y").AddInts("b", 3, 4).ToDataFrame()
	f.Rename("a", "c")
	if n := f.StringHeader().Num(); n != 1 {
		t.Fatalf("%d string columns: %v", n, f.StringHeader().NameList())
	}
''')

seed('C08-index-check-first-only', 'C08', 'dataframe', [('dataframe/concat.go', '''  for _, df := range dfs {
    if df.indexViewed {
''','''  for _, df := range dfs[:1] {
    if df.indexViewed {
''')], 'column-wise concatenation of a plain dataframe followed by a reordered view of the same size',
'the indices are compared only when the first dataframe is a view: the rows of the others are misaligned', '''
	a := build().AddInts("a", 1, 2, 3).ToDataFrame()
	b := build().AddInts("b", 4, 5, 6).ToDataFrame().ReverseView()
	c, err := df.ColumnSmartConcat(a, b)
	if err != nil {
		t.Fatal(err)
	}
	wantInts(t, "concatenated", c, "b", 6, 5, 4)
''')

seed('C08-rowconcat-alloc-offset', 'C08', 'dataframe', [('dataframe/concat.go', '''    for col, vals := range result.ints {
      if from, ok := df.ints[col]; ok {
        for j, i := range df.indices {
          vals[j + offset] = from[i]
        }
''','''    for col, vals := range result.ints {
      if from, ok := df.ints[col]; ok {
        if copy(vals[offset:offset + df.NumRows()], from) < df.NumRows() {
          for j, i := range df.indices {
            vals[j + offset] = from[i]
          }
        }
''')], 'row-wise concatenation of a reordered or filtered view with an int column',
'int cells are copied in storage order rather than in view order', '''
	a := build().AddInts("a", 1, 2, 3).ToDataFrame()
	c, err := df.RowConcat(a, a.ReverseView())
	if err != nil {
		t.Fatal(err)
	}
	wantInts(t, "concatenated", c, "a", 1, 2, 3, 3, 2, 1)
''')

seed('C09-iterator-reset-offset', 'C09', 'dataframe', [('dataframe/row_iterators.go', '''  ite.rowOffset = 0
  ite.dfIndex = 0
''','''  ite.dfIndex = 0
''')], 'Reset after an iteration that did not consume a multiple of 128 rows',
'the iterator keeps delivering rows of the previous dataframe', '''
	f := build().AddInts("a", 1, 2, 3).ToDataFrame()
	ite := df.NewFloat32Iterator(f, []string{"a"})
	ite.NextRow()
	ite.Reset(f.ReverseView(), true)
	row, _, _ := ite.NextRow()
	if row[0] != 3 {
		t.Fatalf("got %v, want 3", row[0])
	}
''')

seed('C09-iterator-stale-bools', 'C09', 'dataframe', [('dataframe/row_iterators.go', '''          ite.rows[j][colIx] = 1.0
        } else {
          ite.rows[j][colIx] = 0
        }
''','''          ite.rows[j][colIx] = 1.0
        }
''')], 'bool columns of more than 128 rows, or an iterator that is reset', 'false cells keep the value of the row delivered 128 rows before', '''
	vals := make([]bool, 130)
	vals[0] = true
	f := build().AddBools("a", vals...).ToDataFrame()
	ite := df.NewFloat32Iterator(f, []string{"a"})
	for row, i, _ := ite.NextRow(); row != nil; row, i, _ = ite.NextRow() {
		if (row[0] == 1) != vals[i] {
			t.Fatalf("row %d: got %v", i, row[0])
		}
	}
''')

seed('C10-missing-leaks', 'C10', 'dataframe', [('dataframe/csv_parsing.go', '''          missing[i] = missingVals[records[i][col]]
''','''          if missingVals[records[i][col]] {
            missing[i] = true
          }
''')], 'two columns processed by the same worker with missing values on different rows',
'rows found missing in one column are treated as missing in the next columns of the same worker', '''
	raw, err := df.FromCSV(strings.NewReader("a,b\\nNA,5\\n6,NA\\n7,8\\n"), df.CSVReadingSpec{MaxCPU: 1, MissingValues: []string{"NA"}})
	if err != nil {
		t.Fatal(err)
	}
	f := raw.ToDataFrame()
	wantInts(t, "a", f, "a", -1, 6, 7)
	wantInts(t, "b", f, "b", 5, -1, 8)
''', ['strings'])

seed('C10-int-base', 'C10', 'dataframe', [('dataframe/csv_parsing.go', '''      _, err := strconv.ParseInt(records[row][col], 10, 64)
''','''      _, err := strconv.ParseInt(records[row][col], 0, 64)
''')], 'a column of Go-style literals such as 0x1F or 0b10', 'strings that look like literals are taken for integers and read as zeros', '''
	raw, err := df.FromCSV(strings.NewReader("a,b\\n0b11,1\\n0b10,2\\n"), df.CSVReadingSpec{})
	if err != nil {
		t.Fatal(err)
	}
	if !raw.StringHeader().NameSet()["a"] {
		t.Fatal("column a is not a string column")
	}
''', ['strings'])

seed('C11-stale-missing-cell', 'C11', 'dataframe', [('dataframe/csv_writing.go', '''        if val == nil {
          batch[i][col] = options.StringMissingMarker
        } else {
''','''        if val == nil {
          if len(options.StringMissingMarker) > 0 {
            batch[i][col] = options.StringMissingMarker
          }
        } else {
''')], 'a missing string after the first 256 rows and the default missing marker',
'the recycled row buffer leaks the string written 256 rows before', '''
	vals := make([]interface{}, 300)
	nums := make([]int, 300)
	for i := 0; i < 256; i++ {
		vals[i] = "x"
	}
	f := build().AddObjects("s", vals...).MarkAsString("s").AddInts("i", nums...).ToDataFrame()
	var out bytes.Buffer
	if err := f.To1CSV(&out, df.CSVWritingSpec{}); err != nil {
		t.Fatal(err)
	}
	if n := strings.Count(out.String(), "x"); n != 256 {
		t.Fatalf("%d strings instead of 256", n)
	}
''', ['bytes', 'strings'])

seed('C12-empty-part-no-header', 'C12', 'dataframe', [('dataframe/csv_writing.go', '''  defer wg.Done()
  err[0] = df.To1CSV(w, opt)
''','''  defer wg.Done()
  if df.NumRows() > 0 {
    err[0] = df.To1CSV(w, opt)
  }
''')], 'more files than rows', 'the parts without rows are written without a header, so the set of files cannot be read back', '''
	dir := os.Getenv("DEMO_DIR")
	f := build().AddInts("a", 5, 6).ToDataFrame()
	if err := f.ToCSVFiles(df.CSVWritingSpec{}, dir+"/p1.csv", dir+"/p2.csv", dir+"/p3.csv"); err != nil {
		t.Fatal(err)
	}
	raw, err := df.FromCSVFilePattern(dir+"/p*.csv", df.CSVReadingSpec{})
	if err != nil {
		t.Fatal(err)
	}
	if n := raw.ToDataFrame().NumRows(); n != 2 {
		t.Fatalf("%d rows", n)
	}
''', ['os'])

seed('C13-shared-error-slot', 'C13', 'dataframe', [('dataframe/csv_writing.go', '''    go dfs[i].threadedTo1CSV(w, errors[i:i+1], options, &wg)
''','''    go dfs[i].threadedTo1CSV(w, errors[:1], options, &wg)
''')], 'several writers, one of which fails before another one succeeds', 'a success overwrites the error of another writer', '''
	f := build().AddInts("a", 5, 6).ToDataFrame()
	failed := make(chan bool)
	err := f.ToCSVs([]io.Writer{writer(func() error { <-failed; time.Sleep(300 * time.Millisecond); return nil }),
		writer(func() error { close(failed); return io.ErrClosedPipe })}, df.CSVWritingSpec{})
	if err == nil {
		t.Fatal("the error was swallowed")
	}
}

type writer func() error

func (w writer) Write(p []byte) (int, error) {
	if err := w(); err != nil {
		return 0, err
	}
	return len(p), nil
''', ['io', 'time'])

seed('C13-field-count-tolerated', 'C13', 'dataframe', [('dataframe/csv_parsing.go', '''import (
  "fmt"
  "runtime"
''','''import (
  "errors"
  "fmt"
  "runtime"
'''), ('dataframe/csv_parsing.go','''  records, err := reader.ReadAll()
  if err != nil {
''','''  records, err := reader.ReadAll()
  if err != nil && !errors.Is(err, csv.ErrFieldCount) {
''')], 'a CSV in which one record has an unexpected number of fields', 'the malformed file is read as an empty dataframe without any error', '''
	_, err := df.FromCSV(strings.NewReader("a,b\\n1,2\\n3\\n"), df.CSVReadingSpec{})
	if err == nil {
		t.Fatal("no error")
	}
''', ['strings'])

seed('C14-onehot-error-leaves', 'C14', 'preprocessing', [('preprocessing/one_hot.go', '''          notif.Error = fmt.Errorf("%d: unknown category", val)
          break
''','''          notif.Error = fmt.Errorf("%d: unknown category", val)
          q.Notify(notif)
          return
''')], 'an unknown category with the ReturnError policy in a column that is not the last one of its worker',
'the worker leaves the other columns of the queue unprocessed and TransformView waits for them forever', '''
	f := build().AddInts("a", 1, 2).AddInts("b", 1, 2).ToDataFrame()
	g := build().AddInts("a", 1, 3).AddInts("b", 1, 3).ToDataFrame()
	g.SetMaxCPU(1)
	enc := preproc.NewOneHotEncoder(preproc.OneHotOptions{MissingPolicy: preproc.SeparateCategory, UnknownPolicy: preproc.ReturnError})
	enc.Fit(f)
	done := make(chan bool)
	go func() {
		enc.TransformView(g)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("TransformView does not return")
	}
''', ['time'])

seed('C14-queue-capacity', 'C14', 'preprocessing', [('utils/string_q.go', '''      Keys: make(chan string, len(keys)),
''','''      Keys: make(chan string, 4 * maxWorkers),
''')], 'more than four columns per CPU', 'the queue is filled before the workers start, hence blocks when it is full', '''
	b := build()
	for _, c := range []string{"a", "b", "c", "d", "e"} {
		b.AddFloats(c, 1, 2)
	}
	f := b.ToDataFrame()
	f.SetMaxCPU(1)
	done := make(chan bool)
	go func() {
		preproc.NewScaler(preproc.ScalerOptions{Centering: true}).Fit(f)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("Fit does not return")
	}
''', ['time'])

seed('C15-late-string-marking', 'C15', 'dataframe', [('dataframe/csv_parsing.go', '''        data.objects[colName] = values
        data.stringHeader.add(colName)
      }
    }
    q.Notify(utils.ProcessedJob{Key: colName})
  }
''','''        data.objects[colName] = values
      }
    }
    q.Notify(utils.ProcessedJob{Key: colName})
  }
  for colName := range data.objects {
    data.stringHeader.add(colName)
  }
''')], 'the main goroutine merging the columns before a worker, done with its last column, marks the string columns',
'the string columns are marked after the worker has reported its last job: the marking races with the merge and may be lost', '''
	for i := 0; i < 200; i++ {
		raw, err := df.FromCSV(strings.NewReader("a,b\\nx,5\\ny,7\\n"), df.CSVReadingSpec{MaxCPU: 2})
		if err != nil {
			t.Fatal(err)
		}
		if !raw.StringHeader().NameSet()["a"] {
			t.Fatal("a is not marked as a string column")
		}
	}
	time.Sleep(200 * time.Millisecond)
''', ['strings', 'time'], race=True)

seed('C15-imputer-shared-map', 'C15', 'preprocessing', [('preprocessing/float_imputer.go', '''    fallback := sum / float64(n)
    defer q.Notify(utils.ProcessedJob{Key: col, Result: &fallback})
''','''    imputer.Fallback[col] = sum / float64(n)
    defer q.Notify(utils.ProcessedJob{Key: col})
'''), ('preprocessing/float_imputer.go', '''    for _, job := range q.Results() {
      imputer.Fallback[job.Key] = *job.Result.(*float64)
    }
''','''    q.Wait()
''')], 'at least two float columns and two CPUs', 'the workers write to the same map concurrently', '''
	b := build()
	for i := 0; i < 8; i++ {
		b.AddFloats(fmt.Sprint("c", i), 1, 2, 3)
	}
	f := b.ToDataFrame()
	for i := 0; i < 50; i++ {
		preproc.NewFloatImputer(preproc.FloatImputerOptions{}).Fit(f)
	}
''', ['fmt'], race=True)

seed('C16-view-marks-parent', 'C16', 'dataframe', [(V, '''  result := *df
  result.sharedMaps = true

  return &result
''','''  df.sharedMaps = true  // the maps have two owners from now on
  result := *df

  return &result
''')], 'two goroutines making views of the same dataframe', 'View() writes to the dataframe it is called on, without synchronization', '''
	f := build().AddInts("a", 1, 2, 3).ToDataFrame()
	done := make(chan bool)
	for g := 0; g < 4; g++ {
		go func() {
			for i := 0; i < 100; i++ {
				f.ReverseView()
			}
			done <- true
		}()
	}
	for g := 0; g < 4; g++ {
		<-done
	}
''', race=True)

seed('C18-hash-state-kept', 'C18', 'dataframe', [(V, '''          hash.Reset()
          hash.Write([]byte(str))
          outputCol[i] = int(hash.Sum64() % maxInt)
        } else {
          outputCol[i] = -1 // a bit controversial I suppose
''','''          hash.Write([]byte(str))
          outputCol[i] = int(hash.Sum64() % maxInt)
          hash.Reset()
        } else {
          hash.Write([]byte(fmt.Sprint(v)))
          outputCol[i] = -1 // a bit controversial I suppose
''')], 'a non-string object before a string in a hashed column', 'the hash of the string depends on the object before it', '''
	f := build().AddObjects("a", "x", 42, "x").ToDataFrame()
	h := f.HashStringsView("a").Ints("a")
	if h.Get(0) != h.Get(2) {
		t.Fatal("equal strings have different codes")
	}
''')

P='preprocessing/'
seed('C19-minmax-else-if', 'C19', 'preprocessing', [(P+'scaler.go', '''          max = val
        }
        if val < min {
''','''          max = val
        } else if val < min {
''')], 'min-max scaling of a column whose first value is its strict minimum', 'the minimum is missed', '''
	f := build().AddFloats("a", 1, 2, 3).ToDataFrame()
	s := preproc.NewScaler(preproc.ScalerOptions{MinMax: true})
	s.Fit(f)
	s.TransformInplace(f)
	wantFloats(t, "scaled", f, "a", 0, 0.5, 1)
''')

seed('C20-fallback-looked-up-once', 'C20', 'preprocessing', [(P+'one_hot.go', '''    if opt.UnknownPolicy != ReturnError {
      unkColumn = df.Bools(encoder.Fallback[catCol][1])
    }
''','''    if opt.UnknownPolicy != ReturnError && unkColumn.Size() == 0 {
      unkColumn = df.Bools(encoder.Fallback[catCol][1])
    }
''')], 'unknown categories in two columns transformed by the same worker', 'the unknown categories of the second column are marked in the column of the first', '''
	f := build().AddInts("a", 1, 2).AddInts("b", 1, 2).ToDataFrame()
	g := build().AddInts("a", 7, 1).AddInts("b", 1, 8).ToDataFrame()
	g.SetMaxCPU(1)
	enc := preproc.NewOneHotEncoder(preproc.OneHotOptions{MissingPolicy: preproc.SeparateCategory, UnknownPolicy: preproc.SeparateCategory})
	enc.Fit(f)
	r, err := enc.TransformView(g)
	if err != nil {
		t.Fatal(err)
	}
	a, b := r.Bools("a_unk"), r.Bools("b_unk")
	if !a.Get(0) || a.Get(1) || b.Get(0) || !b.Get(1) {
		t.Fatal("wrong marks", a.Get(0), a.Get(1), b.Get(0), b.Get(1))
	}
''')

seed('C21-auto-imputes-input', 'C21', 'preprocessing', [(P+'auto_preprocessor.go', '''  if preproc.Imputer != nil {
    df = df.DetachedView(preproc.Imputer.TransformedColumns()...)
''','''  if preproc.Imputer != nil && (preproc.StringToInt == nil || preproc.Scaler != nil) {
    df = df.DetachedView(preproc.Imputer.TransformedColumns()...)
''')], 'an automatic preprocessor with imputing, without scaling, on data with string columns', 'TransformView imputes the missing values of the dataframe it is given', '''
	f := build().AddFloats("a", 1, 3, math.NaN()).AddStrings("s", "x", "y", "x").ToDataFrame()
	p := preproc.NewAutoPreprocessor(preproc.AutoPreprocOptions{Imputing: true})
	if err := p.Fit(f); err != nil {
		t.Fatal(err)
	}
	if _, err := p.TransformView(f); err != nil {
		t.Fatal(err)
	}
	if !math.IsNaN(f.Floats("a").Get(2)) {
		t.Fatal("the input was changed")
	}
''', ['math'])

seed('C22-scale-before-impute', 'C22', 'preprocessing', [(P+'auto_preprocessor.go', '''  // transformations
  if preproc.Imputer != nil {
    preproc.Imputer.TransformInplace(df)
  }
  if preproc.Scaler != nil {
    preproc.Scaler.TransformInplace(df)
  }
''','''  // transformations
  if preproc.Scaler != nil {
    preproc.Scaler.TransformInplace(df)
  }
  if preproc.Imputer != nil {
    preproc.Imputer.TransformInplace(df)
  }
''')], 'missing values with both imputing and scaling', 'missing values are replaced with a mean that is not scaled', '''
	f := build().AddFloats("a", 1, 3, math.NaN()).ToDataFrame()
	p := preproc.NewAutoPreprocessor(preproc.AutoPreprocOptions{Imputing: true, Scaling: true})
	a := p.FitTransform(f)
	b, err := p.TransformView(f)
	if err != nil {
		t.Fatal(err)
	}
	wantFloats(t, "transformed", b, "a", a.Floats("a").Get(0), a.Floats("a").Get(1), a.Floats("a").Get(2))
''', ['math'])

seed('C23-option-not-serialized', 'C23', 'preprocessing', [(P+'one_hot.go', '''  KeepUsedColumns bool
}
''','''  KeepUsedColumns bool `json:"-"`
}
''')], 'an encoder with KeepUsedColumns that goes through JSON', 'the restored encoder drops the columns it should keep', '''
	f := build().AddInts("a", 1, 2).ToDataFrame()
	enc := preproc.NewOneHotEncoder(preproc.OneHotOptions{MissingPolicy: preproc.SeparateCategory, UnknownPolicy: preproc.SeparateCategory, KeepUsedColumns: true})
	enc.Fit(f)
	data, err := json.Marshal(enc)
	if err != nil {
		t.Fatal(err)
	}
	back := new(preproc.OneHotEncoder)
	if err := json.Unmarshal(data, back); err != nil {
		t.Fatal(err)
	}
	r, err := back.TransformView(f)
	if err != nil {
		t.Fatal(err)
	}
	if !r.IntHeader().NameSet()["a"] {
		t.Fatal("column a was dropped")
	}
''', ['encoding/json'])

A='algorithms/'
seed('C24-prediction-offset', 'C24', 'algorithms', [(A+'linear_regression.go', '''    offset := i * batchSize
''','''    offset := i * batch.NumRows()
''')], 'a prediction that needs several batches, the last one being smaller', 'the predictions of the last batch are written to the wrong rows', '''
	n := 140000
	reg := algo.NewLinearRegressor()
	reg.Features = make([]string, n)
	reg.Weights = make([]float64, n)
	for i := range reg.Features {
		reg.Features[i] = "a"
	}
	reg.Weights[0] = 1
	reg.TargetScaler = preproc.NewScaler(preproc.ScalerOptions{Centering: true, Scaling: true})
	vals := make([]float64, 40)
	for i := range vals {
		vals[i] = float64(i)
	}
	f := build().AddFloats("a", vals...).ToDataFrame()
	r, err := reg.Predict(f, "p")
	if err != nil {
		t.Fatal(err)
	}
	wantFloats(t, "predictions", r, "p", vals...)
''')

seed('C24-prediction-order', 'C24', 'algorithms', [(A+'linear_regression.go', '''  df = df.ResetIndexView() // makes batching.DenseMatrix faster
''','''  original := df
  df = df.ResetIndexView() // makes batching.DenseMatrix faster
'''), (A+'linear_regression.go', '''  result := df.View()
''','''  result := original.View()
''')], 'predicting on a view whose rows are not in storage order', 'the predictions are attached to the wrong rows', '''
	reg := algo.NewLinearRegressor()
	reg.Features = []string{"a"}
	reg.Weights = []float64{1}
	reg.TargetScaler = preproc.NewScaler(preproc.ScalerOptions{Centering: true, Scaling: true})
	f := build().AddFloats("a", 1, 2, 3).ToDataFrame().ReverseView()
	r, err := reg.Predict(f, "p")
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 3; i++ {
		if r.Floats("p").Get(i) != r.Floats("a").Get(i) {
			t.Fatalf("row %d: predicted %v for %v", i, r.Floats("p").Get(i), r.Floats("a").Get(i))
		}
	}
''')

seed('C25-decay-before-update', 'C25', 'algorithms', [(A+'linear_regression.go', '''      // weight update
      weights.AddScaledVec(weights, -params.LR, gradients)
      // weight decay
      if params.WeightDecay > 0 {
        weights.ScaleVec(1-params.WeightDecay, weights)
      }
''','''      // weight decay
      if params.WeightDecay > 0 {
        weights.ScaleVec(1-params.WeightDecay, weights)
      }
      // weight update
      weights.AddScaledVec(weights, -params.LR, gradients)
''')], 'training with weight decay', 'the decay is applied before the update instead of after each iteration', '''
	f := build().AddFloats("a", 1, 2, 4, 4).AddFloats("y", 1, 3, 2, 5).ToDataFrame()
	train := func(decay float64) float64 {
		rand.Seed(1)
		reg := algo.NewLinearRegressor()
		reg.Fit(f, "y", algo.LinRegTrainParams{Epochs: 1, LR: 0.01, BatchSize: 4, WeightDecay: decay})
		return reg.Weights[0]
	}
	got, want := train(0.5), train(0)*0.5
	if math.Abs(got-want) > 1e-12 {
		t.Fatalf("got %v, want %v", got, want)
	}
''', ['math', 'math/rand'])

seed('C25-target-scaled-in-place', 'C25', 'algorithms', [(A+'linear_regression.go', '''  df = df.DetachedView(targetColumn)
''','''  if !df.AreIndicesAltered() {
    df = df.DetachedView(targetColumn)
  }
''')], 'training on a row view (shuffled, filtered, split)', 'the target column of the training data is scaled in place', '''
	f := build().AddFloats("a", 1, 2, 4, 4).AddFloats("y", 1, 3, 2, 5).ToDataFrame()
	v := f.ReverseView()
	algo.NewLinearRegressor().Fit(v, "y", algo.LinRegTrainParams{Epochs: 1, LR: 0.01, BatchSize: 4})
	wantFloats(t, "target", f, "y", 1, 3, 2, 5)
''')

seed('C26-shallow-copy-masks', 'C26', 'dataframe', [(D, '''  result.mThreadSafe = df.mThreadSafe
  result.indices = df.indices
  result.mask = df.mask
''','''  result.indices = df.indices
  result.mask = df.mask
''')], 'thread-safe masking enabled before making a shallow copy (or column concatenation)', 'the masks requested from the shallow copy are the same buffer', '''
	f := build().AddInts("a", 1, 2).ToDataFrame().ThreadSafeMasking(true)
	s := f.ShallowCopy()
	m1, m2 := s.ZeroMask(), s.ZeroMask()
	m1[0] = true
	if m2[0] {
		t.Fatal("the masks are the same buffer")
	}
''')

seed('C26-mask-view-trims', 'C26', 'dataframe', [(V, '''  for j, b := range mask {
    if b {
      result.indices[newSize] = df.indices[j]
      newSize++
    }
  }
  result.indices = result.indices[:newSize]  // truncation
  result.indexViewed = true
''','''  for j, b := range mask {
    if b {
      result.indices[newSize] = df.indices[j]
      newSize++
    }
  }
  result.indices, result.mask = result.indices[:newSize], mask[:newSize]  // truncation
  result.indexViewed = true
''')], 'requesting a mask on a view built from a mask that does not come from the dataframe', 'the masked view keeps the mask given by the caller as its own buffer', '''
	f := build().AddInts("a", 1, 2, 3).ToDataFrame()
	mine := []bool{true, true, false}
	v := f.MaskView(mine)
	w := v.IndexView([]int{0, 1, 0})
	v.ZeroMask()
	if !mine[0] || !mine[1] {
		t.Fatal("the mask of the caller was cleared")
	}
	_ = w
''')

seed('C27-zero-records', 'C27', 'dataframe', [('dataframe/print.go', '''func (df *DataFrame) PrintRecords(n int, floatFormat string, shorthands map[string]string) *DataFrame {
  if n < 0 || n > len(df.indices) {
''','''func (df *DataFrame) PrintRecords(n int, floatFormat string, shorthands map[string]string) *DataFrame {
  if n <= 0 || n > len(df.indices) {
''')], 'PrintRecords with n=0', 'all the rows are printed instead of none', '''
	out := os.Stdout
	r, w, _ := os.Pipe()
	os.Stdout = w
	build().AddInts("a", 1, 2).ToDataFrame().PrintRecords(0, "", nil)
	os.Stdout = out
	w.Close()
	data, _ := io.ReadAll(r)
	if len(data) > 0 {
		t.Fatalf("printed %q", data)
	}
''', ['io', 'os'])

seed('C28-merge-one-aliases', 'C28', 'dataframe', [(R, '''  result := NewRawData()
  if len(list) == 0 {
    return result
  }
''','''  if len(list) == 1 {
    return list[0]
  } else if len(list) == 0 {
    return NewRawData()
  }
  result := NewRawData()
''')], 'merging a list of a single RawData, then altering it', 'the result shares its data with the input', '''
	raw := df.NewRawData()
	df.DataBuilder{RawData: raw}.AddInts("a", 1, 2)
	m := df.MergeRawDataRows([]*df.RawData{raw}).ToDataFrame()
	raw.ToDataFrame().Ints("a").Set(0, 42)
	wantInts(t, "merged", m, "a", 1, 2)
''')

seed('C28-long-bool-column', 'C28', 'dataframe', [(R, '''  for col, vals := range data.bools {
    if nRows != len(vals) {
      panic(''','''  for col, vals := range data.bools {
    if nRows > len(vals) {
      panic(''')], 'a bool column longer than the other columns', 'the dataframe is built without its last bools instead of being refused', '''
	defer func() {
		if recover() == nil {
			t.Fatal("columns of different sizes were accepted")
		}
	}()
	build().AddInts("a", 1, 2).AddBools("b", true, false, true).ToDataFrame()
''')

seed('C29-shorter-predictions', 'C29', 'algorithms', [(A+'evaluation.go', '''func MAE(yPred dataframe.FloatAccess, yTrue dataframe.FloatAccess) float64 {
  if yPred.Size() != yTrue.Size() {
''','''func MAE(yPred dataframe.FloatAccess, yTrue dataframe.FloatAccess) float64 {
  if yPred.Size() > yTrue.Size() {
''')], 'fewer predictions than true values', 'the error is computed on the first rows instead of being refused', '''
	defer func() {
		if recover() == nil {
			t.Fatal("vectors of different sizes were accepted")
		}
	}()
	algo.MAE(build().AddFloats("a", 1).ToDataFrame().Floats("a"), build().AddFloats("a", 1, 2).ToDataFrame().Floats("a"))
''')

# ---------------------------------------------------------------- second batch
C='dataframe/concat.go'; S='utils/string_q.go'; H='dataframe/column_header.go'; CP='dataframe/csv_parsing.go'; CW='dataframe/csv_writing.go'

seed('C01-reset-full-length', 'C01', 'dataframe', [(V, '''  sort.Ints(result.indices)

  return result
''', '''  if sort.Ints(result.indices); len(result.indices) == result.NumAllocatedRows() {
    result.indexViewed = false  // every row is there
  }
  return result
''')], 'ResetIndexView on a view that repeats some rows and lacks others but has as many rows as the storage, followed by a copy or a slice',
'such a view is taken for the plain dataframe, so that copies and slices of it hold other rows', '''
	f := build().AddInts("a", 10, 11, 12).ToDataFrame()
	r := f.IndexView([]int{2, 0, 0}).ResetIndexView()
	wantInts(t, "reset view", r, "a", 10, 10, 12)
	wantInts(t, "copy of the reset view", r.Copy(), "a", 10, 10, 12)
''')

seed('C02-single-part-is-self', 'C02', 'dataframe', [(V, '''  if n <= 1 {
    return []*DataFrame{df.View()}
''', '''  if n <= 1 {
    return []*DataFrame{df}
'''), ], 'a split that yields a single part, which is then restructured',
'the only part of a split is the dataframe itself, so that restructuring the part restructures the original', '''
	f := build().AddInts("a", 10, 11, 12).AddInts("b", 1, 2, 3).ToDataFrame()
	parts := f.SplitView(5)
	parts[0].Drop("b")
	if f.NumColumns() != 2 {
		t.Fatal("dropping a column of the part dropped it from the original")
	}
''')

seed('C04-overwrite-full-length', 'C04', 'dataframe', [(I, '''    df.AllocBools(colName)
    col = df.bools[colName]
  }
  for j, i := range df.indices {
    col[i] = values[j]
  }
''', '''    df.AllocBools(colName)
    col = df.bools[colName]
  }
  if len(col) != len(df.indices) {
    for j, i := range df.indices {
      col[i] = values[j]
    }
  } else {
    copy(col, values)
  }
''')], 'overwriting a bool column through a permuted view that has as many rows as the storage',
'the values end up in the storage order instead of the order of the view', '''
	f := build().AddBools("a", false, false, false).ToDataFrame()
	v := f.ReverseView()
	v.OverwriteBools("a", []bool{true, false, false})
	if !v.Bools("a").Get(0) || f.Bools("a").Get(0) || !f.Bools("a").Get(2) {
		t.Fatal("the value was written to another row")
	}
''')

seed('C05-objects-transfer-unmarked', 'C05', 'dataframe', [(R, '''    data.objects[col] = vals
    data.shared.add(col)
  }
  for col := range from.stringHeader.get() {
    data.stringHeader.add(col)
  }
''', '''    data.objects[col] = vals
  }
  for col := range from.stringHeader.get() {
    data.stringHeader.add(col)
    data.shared.add(col)
  }
''')], 'an object column that is not marked as string, detached from a view and written',
'object columns that are not string columns are not remembered as borrowed and thus never detached', '''
	f := build().AddObjects("a", 1, 2).ToDataFrame()
	d := f.DetachedView("a")
	d.Objects("a").Set(0, 7)
	if f.Objects("a").Get(0) != 1 {
		t.Fatal("writing to a detached view changed the original")
	}
''')

seed('C08-copy-concat-plain-inputs', 'C08', 'dataframe', [(C, '''    copies[i] = df.Copy()
''', '''    if copies[i] = df; df.indexViewed {
      copies[i] = df.Copy()
    }
''')], 'ColumnCopyConcat of dataframes whose indices are not altered, followed by a write',
'the result shares its data with the dataframes given as arguments', '''
	f := build().AddInts("a", 10, 11).ToDataFrame()
	g := build().AddInts("b", 1, 2).ToDataFrame()
	r, err := df.ColumnCopyConcat(f, g)
	if err != nil {
		t.Fatal(err)
	}
	r.Ints("a").Set(0, 99)
	r.Ints("b").Set(0, 99)
	wantInts(t, "first input", f, "a", 10, 11)
	wantInts(t, "second input", g, "b", 1, 2)
''')

seed('C09-vector-of-permutation', 'C09', 'dataframe', [('dataframe/column_access.go', '''                                   contiguous: !df.indexViewed},
''', '''                                   contiguous: len(df.indices) == len(data)},
''')], 'a gonum vector from a permuted view that has as many rows as the storage',
'the vector holds the values in storage order', '''
	f := build().AddFloats("a", 1, 2, 3).ToDataFrame().ReverseView()
	v := f.Floats("a").VecDense()
	if v.AtVec(0) != 3 || v.AtVec(2) != 1 {
		t.Fatal("the vector is not in the order of the view")
	}
''')

seed('C10-large-ints', 'C10', 'dataframe', [(CP, '''      _, err := strconv.ParseInt(records[row][col], 10, 64)
''', '''      _, err := strconv.Atoi(records[row][col])
      if err == nil && len(records[row][col]) > 18 {
        err = strconv.ErrRange  // better off as a float
      }
''')], 'an integer of 19 digits that still fits in 64 bits', 'columns with very large integers are read as float columns, losing digits', '''
	raw, err := df.FromCSV(strings.NewReader("a\\n1234567890123456789\\n5\\n"), df.CSVReadingSpec{})
	if err != nil {
		t.Fatal(err)
	}
	if !raw.IntHeader().NameSet()["a"] {
		t.Fatal("not an int column")
	}
''', imports=['strings'])

seed('C10-excluded-shift', 'C10', 'dataframe', [(CP, '''  colsToParse := Columns(header...).Except(options.Exclude...)
''', '''  colsToParse := Columns(header...)
  if colsToParse = colsToParse.Except(options.Exclude...); colsToParse.Num() < len(header)/2 {
    header = colsToParse.NameList()  // faster look-ups
  }
''')], 'excluding more than half of the columns', 'columns are looked up in the wrong position of the records', '''
	raw, err := df.FromCSV(strings.NewReader("a,b,c,d\\n5,6,7,8\\n9,9,9,9\\n"), df.CSVReadingSpec{Exclude: []string{"a", "b", "c"}})
	if err != nil {
		t.Fatal(err)
	}
	wantInts(t, "remaining column", raw.ToDataFrame(), "d", 8, 9)
''', imports=['strings'])

seed('C11-sixteen-digits', 'C11', 'dataframe', [(CW, '''        batch[i][col] = strconv.FormatFloat(vals[k], 'f', -1, 64)
''', '''        batch[i][col] = strconv.FormatFloat(vals[k], 'g', 16, 64)
''')], 'a float that needs 17 significant digits', 'such floats change when they are written and read back', '''
	v := 0.1
	v += 0.2
	f := build().AddFloats("a", v, 2.5).ToDataFrame()
	var sb strings.Builder
	if err := f.To1CSV(&sb, df.CSVWritingSpec{}); err != nil {
		t.Fatal(err)
	}
	raw, err := df.FromCSV(strings.NewReader(sb.String()), df.CSVReadingSpec{})
	if err != nil {
		t.Fatal(err)
	}
	if got := raw.ToDataFrame().Floats("a").Get(0); got != v {
		t.Fatalf("%v was read back as %v", v, got)
	}
''', imports=['strings'])

seed('C11-batch-tail', 'C11', 'dataframe', [(CW, '''    err := writer.WriteAll(batch[:end - j])
''', '''    rows := batch[:end - j]
    if end - j == len(batch) && numRows > len(batch) && end == numRows {
      rows = batch[:len(batch) - 1]  // the header counts as a row
    }
    err := writer.WriteAll(rows)
''')], 'a dataframe whose number of rows is a multiple of 256, and more than 256', 'the last row is not written', '''
	vals := make([]int, 512)
	f := build().AddInts("a", vals...).ToDataFrame()
	var sb strings.Builder
	if err := f.To1CSV(&sb, df.CSVWritingSpec{}); err != nil {
		t.Fatal(err)
	}
	if n := strings.Count(sb.String(), "\\n"); n != 513 {
		t.Fatalf("%d lines", n)
	}
''', imports=['strings'])

seed('C12-repeated-rows-once', 'C12', 'dataframe', [(CW, '''    sort.Ints(result.indices)
    return result
''', '''    sort.Sort(sort.IntSlice(result.indices))
    n := 0
    for j, index := range result.indices {
      if j == 0 || index != result.indices[n-1] {
        result.indices[n] = index
        n++
      }
    }
    result.indices = result.indices[:n]
    return result
''')], 'writing a view that repeats rows without asking for the order to be maintained', 'repeated rows are written once', '''
	f := build().AddInts("a", 5, 6).ToDataFrame().IndexView([]int{1, 0, 1})
	var x, y strings.Builder
	if err := f.ToCSVs([]io.Writer{&x, &y}, df.CSVWritingSpec{}); err != nil {
		t.Fatal(err)
	}
	if n := strings.Count(x.String()+y.String(), "6"); n != 2 {
		t.Fatalf("the row was written %d times", n)
	}
''', imports=['strings', 'io'])

seed('C14-reader-stops-at-error', 'C14', 'dataframe', [(CP, '''    q.Notify(utils.ProcessedJob{Key: path, Error: err, Result: data})
''', '''    if q.Notify(utils.ProcessedJob{Key: path, Error: err, Result: data}); err != nil {
      return  // no need to read the other files
    }
''')], 'a file pattern with at least as many unreadable files as workers, and files left in the queue', 'the call waits for ever for the results of the files nobody reads', '''
	dir := os.Getenv("DEMO_DIR")
	for _, n := range []string{"a", "b", "c"} {
		os.WriteFile(dir+"/"+n+".csv", []byte("x,y\\n1\\n"), 0o600)
	}
	done := make(chan error)
	go func() {
		_, err := df.FromCSVFilePattern(dir+"/*.csv", df.CSVReadingSpec{MaxCPU: 1})
		done <- err
	}()
	select {
	case err := <-done:
		if err == nil {
			t.Fatal("no error")
		}
	case <-time.After(20 * time.Second):
		t.Fatal("the call does not return")
	}
''', imports=['os', 'time'])

seed('C15-hash-early-notify', 'C15', 'dataframe', [(V, '''    defer columnQ.Notify(utils.ProcessedJob{Key: col})
    inputCol := inputDF.objects[col]
''', '''    columnQ.Notify(utils.ProcessedJob{Key: col})
    inputCol := inputDF.objects[col]
''')], 'a schedule in which HashStringsView returns before its workers are done', 'the returned dataframe is still being filled', '''
	n := 300000
	vals := make([]string, n)
	for i := range vals {
		vals[i] = "some rather long text, which takes some time to hash"
	}
	f := build().AddStrings("s", vals...).ToDataFrame()
	h := f.HashStringsView("s").Ints("s")
	if h.Get(n-1) == 0 {
		t.Fatal("the last row is not hashed yet")
	}
''')

seed('C16-cached-number-of-rows', 'C16', 'dataframe', [(R, '''  for _, vals := range data.ints {
    return len(vals)
  }
  for _, vals := range data.bools {
    return len(vals)
  }
  return data.allocRows
''', '''  for _, vals := range data.ints {
    data.allocRows = len(vals)
  }
  for _, vals := range data.bools {
    data.allocRows = len(vals)
  }
  return data.allocRows
''')], 'two goroutines that read the same dataframe of ints or bools', 'a reading operation writes to the dataframe: a data race', '''
	f := build().AddInts("a", 1, 2).ToDataFrame()
	done := make(chan bool)
	for i := 0; i < 2; i++ {
		go func() {
			for k := 0; k < 100; k++ {
				f.NumAllocatedRows()
			}
			done <- true
		}()
	}
	<-done
	<-done
''', race=True)

seed('C18-empty-string-missing', 'C18', 'dataframe', [(V, '''        if str, valid := v.(string); valid {
''', '''        if str, valid := v.(string); valid && len(str) > 0 {
''')], 'an empty string, which is not a missing one', 'empty strings are hashed like missing ones', '''
	f := build().AddStrings("s", "", "x").ToDataFrame()
	h := f.HashStringsView("s").Ints("s")
	if h.Get(0) == -1 {
		t.Fatal("the empty string is hashed to the missing marker")
	}
''')

seed('C19-default-scale-zero-shift', 'C19', 'preprocessing', [(P+'scaler.go', '''    shift := scaler.Shift[col]  // 0 by default
    if scale, ok = scaler.Scale[col]; !ok {
      scale = 1  // default scale
    }
    access := df.Floats(col)
''', '''    shift := scaler.Shift[col]  // 0 by default
    if scale, ok = scaler.Scale[col]; !ok || (shift == 0 && scaler.options.Centering) {
      scale = 1  // default scale
    }
    access := df.Floats(col)
''')], 'a column whose mean is exactly zero, with both centering and scaling', 'the column is not scaled', '''
	f := build().AddFloats("a", -2, 2).ToDataFrame()
	s := preproc.NewScaler(preproc.ScalerOptions{Centering: true, Scaling: true})
	s.Fit(f)
	s.TransformInplace(f)
	wantFloats(t, "scaled", f, "a", -1, 1)
''')

seed('C20-missing-as-category', 'C20', 'preprocessing', [(P+'one_hot.go', '''    delete(freqs, -1)
''', '''    if opt.MissingPolicy != ReturnError {
      delete(freqs, -1)
    }
''')], 'missing values in the training data of an encoder that rejects missing values', 'a column is created for the missing marker', '''
	f := build().AddInts("a", 1, 2, -1).ToDataFrame()
	e := preproc.NewOneHotEncoder(preproc.OneHotOptions{MissingPolicy: preproc.ReturnError, UnknownPolicy: preproc.ReturnError})
	if err := e.Fit(f); err != nil {
		return
	}
	if len(e.NewColumns) != 2 {
		t.Fatalf("new columns: %v", e.NewColumns)
	}
''')

seed('C21-fit-transform-in-place', 'C21', 'preprocessing', [(P+'auto_preprocessor.go', '''  df = df.View()
  if !opt.Imputing && !opt.Scaling {
    return df, nil
  }
''', '''  if !opt.Imputing && !opt.Scaling {
    return df.View(), nil
  }
''')], 'FitTransform of a dataframe that has only float columns', 'the input is transformed too', '''
	f := build().AddFloats("a", -2, 6).ToDataFrame()
	p := preproc.NewAutoPreprocessor(preproc.AutoPreprocOptions{Scaling: true})
	p.FitTransform(f)
	wantFloats(t, "input", f, "a", -2, 6)
''')

seed('C25-decay-per-epoch', 'C25', 'algorithms', [(A+'linear_regression.go', '''      if params.WeightDecay > 0 {
        weights.ScaleVec(1-params.WeightDecay, weights)
      }
    }
''', '''    }
    if params.WeightDecay > 0 {
      weights.ScaleVec(1-params.WeightDecay, weights)
    }
''')], 'weight decay with more than one batch per epoch', 'weights decay once per epoch instead of once per batch', '''
	train := func(batch int) float64 {
		f := build().AddFloats("x", 0, 0, 0, 0).AddFloats("y", 1, 2, 3, 4).ToDataFrame()
		rand.Seed(7)
		r := algo.NewLinearRegressor()
		r.Fit(f, "y", algo.LinRegTrainParams{Epochs: 1, BatchSize: batch, WeightDecay: 0.5})
		return r.Weights[0]
	}
	// the gradients are zero, so that only the decay changes the weight
	one, four := train(4), train(1)
	if d := one/8 - four; d > 1e-9 || d < -1e-9 {
		t.Fatalf("weight %v after one batch, %v after four", one, four)
	}
''', imports=['math/rand'])

seed('C25-kept-gradients', 'C25', 'algorithms', [(A+'linear_regression.go', '''        prevGradients.CopyVec(gradients)
''', '''        prevGradients = gradients
''')], 'momentum over more than one batch', 'the gradients are added to themselves instead of to the previous ones', '''
	train := func(epochs int) float64 {
		f := build().AddFloats("x", 1, 1).AddFloats("y", 0, 2).ToDataFrame()
		rand.Seed(3)
		r := algo.NewLinearRegressor()
		r.Fit(f, "y", algo.LinRegTrainParams{Epochs: epochs, BatchSize: 2, LR: 0.1, Momentum: 0.5})
		return r.Weights[0]
	}
	// the accumulated gradient is twice the weight
	w1 := train(1)
	g1 := 2 * w1 / 0.8
	want := w1 - 0.1*(2*w1+0.5*g1)
	if d := train(2) - want; d > 1e-9 || d < -1e-9 {
		t.Fatalf("weight %v, expected %v", train(2), want)
	}
''', imports=['math/rand'])

seed('C27-head-of-small-view', 'C27', 'dataframe', [('dataframe/print.go', '''func (df *DataFrame) PrintHead(n int, floatFormat string) *DataFrame {
  if n < 0 || n > len(df.indices) {
''', '''func (df *DataFrame) PrintHead(n int, floatFormat string) *DataFrame {
  if n < 0 || n > df.NumAllocatedRows() {
''')], 'printing more rows than the view has, but not more than the storage has', 'the printer goes beyond the rows of the view', '''
	f := build().AddInts("a", 1, 2, 3, 4).ToDataFrame()
	f.IndexView([]int{3, 2}).PrintHead(3, "")
''')

seed('C30-shuffle-in-place', 'C30', 'utils', [(S, '''    a := make([]string, len(keys))
    copy(a, keys)
''', '''    a := keys
''')], 'a list of keys at least as long as the number of workers', "the caller's list is shuffled", '''
	keys := []string{"a", "b", "c", "d", "e", "f", "g", "h"}
	utils.CreateStringQueue(keys, 2)
	if strings.Join(keys, "") != "abcdefgh" {
		t.Fatalf("the keys became %v", keys)
	}
''', imports=['strings', 'github.com/rom1mouret/ml-essentials/utils'])

seed('C30-closed-twice', 'C30', 'utils', [(S, '''  for i := 0; i < q.NumJobs; i++ {
      <- q.Errors
  }
''', '''  for i := 0; i < q.NumJobs; i++ {
      if job := <- q.Errors; job.Error != nil {
        return
      }
  }
''')], 'a job that fails while others are still running', 'waiting ends before all the jobs are done, and their notifications go to a closed channel', '''
	q := utils.CreateStringQueue([]string{"a", "b"}, 2)
	q.Next()
	q.Notify(utils.ProcessedJob{Key: "a", Error: errors.New("failure")})
	waited := make(chan bool)
	go func() {
		q.Wait()
		close(waited)
	}()
	select {
	case <-waited:
		t.Fatal("Wait returned although one job is still running")
	case <-time.After(300 * time.Millisecond):
	}
	q.Next()
	q.Notify(utils.ProcessedJob{Key: "b"})
	<-waited
''', imports=['errors', 'time', 'github.com/rom1mouret/ml-essentials/utils'])

seed('C31-string-header-aliased', 'C31', 'dataframe', [(R.replace('raw_data', 'column_header'), '''  // we do a copy for consistency with other Getters
  return data.stringHeader.Copy()
''', '''  return data.stringHeader
''')], 'excluding names from the header of the string columns', 'the columns are no longer string columns of the dataframe', '''
	f := build().AddStrings("a", "x").AddStrings("b", "y").ToDataFrame()
	f.StringHeader().Except("a")
	if f.StringHeader().Num() != 2 {
		t.Fatal("altering the header altered the dataframe")
	}
''')

seed('C31-and-adopts-argument', 'C31', 'dataframe', [(H, '''  if h.columns == nil {
    h.columns = make(map[string]bool)
  }
  for _, other := range others {
    if other.columns != nil {
      for col := range other.columns {
        h.columns[col] = true
      }
    }
  }
  return h
''', '''  for _, other := range others {
    if h.columns == nil {
      h = other  // nothing to merge yet
    }
    for col := range other.columns {
      h.columns[col] = true
    }
  }
  return h
''')], 'the union of an empty header with two others', 'the first argument receives the names of the second', '''
	f := build().AddInts("a", 1).AddBools("b", true).ToDataFrame()
	ints := f.IntHeader()
	f.FloatHeader().And(ints, f.BoolHeader())
	if ints.Num() != 1 {
		t.Fatalf("the header of the ints became %v", ints.NameList())
	}
''')

seed('C31-overlap-of-bools', 'C31', 'dataframe', [('dataframe/checks.go', '''    for col := range df.bools {
      if _, ok := colSet[col]; ok {
        return fmt.Errorf("column %s (%dth dataframe) overlaps", col, k)
      }
      colSet[col] = true
    }
  }
''', '''    for col := range df.bools {
      if _, ok := colSet[col]; ok {
        return fmt.Errorf("column %s (%dth dataframe) overlaps", col, k)
      }
    }
  }
''')], 'a bool column in one dataframe and a column of that name in a later one', 'the overlap is not detected', '''
	f := build().AddBools("a", true).ToDataFrame()
	g := build().AddInts("a", 1).ToDataFrame()
	if df.CheckNoColumnOverlap([]*df.DataFrame{f, g}) == nil {
		t.Fatal("the overlap is not detected")
	}
''')

seed('C32-log-of-small-views', 'C32', 'dataframe', [('dataframe/print.go', '''  if df.debug {
    log.Printf(''', '''  if df.debug || (df.NumRows() == 0 && df.indexViewed) {
    log.Printf(''')], 'a view without rows of a dataframe that is not being debugged', 'operations on it are logged', '''
	var sb strings.Builder
	log.SetOutput(&sb)
	build().AddInts("a", 1).ToDataFrame().IndexView(nil).ShallowCopy()
	if sb.Len() > 0 {
		t.Fatalf("logged: %s", sb.String())
	}
''', imports=['log', 'strings'])


UNIFORM = """
	build3 := func() *df.DataFrame { return build().AddInts("a", 0, 1, 2).ToDataFrame() }
	rand.Seed(7)
	uniform := func(what string, outcomes int, draw func() string) {
		const n = 60000
		seen := map[string]int{}
		for i := 0; i < n; i++ {
			seen[draw()]++
		}
		if len(seen) != outcomes {
			t.Fatalf("%s: %d outcomes instead of %d: %v", what, len(seen), outcomes, seen)
		}
		for o, k := range seen {
			if r := float64(k) * float64(outcomes) / n; r < 0.93 || r > 1.07 {
				t.Fatalf("%s: outcome %s is %.2f times as frequent as it should", what, o, r)
			}
		}
	}
	key := func(f *df.DataFrame) string {
		o := ""
		a := f.Ints("a")
		for i := 0; i < a.Size(); i++ {
			o += string(rune('0' + a.Get(i)))
		}
		return o
	}
"""

seed('C34-naive-swaps', 'C34', 'dataframe', [(V, '''  rand.Shuffle(len(a), func(i, j int) { a[i], a[j] = a[j], a[i] })
''', '''  for i := range a {
    j := rand.Intn(len(a))
    a[i], a[j] = a[j], a[i]
  }
''')], 'at least 3 rows and the frequencies of the orders over many shuffles', 'every row is swapped with a row picked among all rows, which makes some orders more likely than others', UNIFORM + """
	uniform("shuffle", 6, func() string { return key(build3().ShuffleView()) })
""", ['math/rand'])

seed('C34-reservoir', 'C34', 'dataframe', [(V, '''  // TODO: better algorithm
  df = df.ShuffleView()
  df.indices = df.indices[:n]

  return df
''', '''  if n == 0 || n == df.NumRows() {
    return df.ShuffleView().SliceView(0, n)
  }
  // reservoir sampling: touches every row only once
  picked := utils.MakeRange(0, n, 1)
  for i := n; i < df.NumRows(); i++ {
    if j := rand.Intn(i); j < n {
      picked[j] = i
    }
  }
  rand.Shuffle(n, func(i, j int) { picked[i], picked[j] = picked[j], picked[i] })
  return df.IndexView(picked)
''')], 'sampling fewer rows than there are, and the frequencies of the samples over many draws', 'a reservoir sample whose draws are bounded by i instead of i+1: later rows are over-represented', UNIFORM + """
	uniform("sample", 3, func() string { return key(build3().SampleView(1, false)) })
	uniform("sample", 6, func() string { return key(build3().SampleView(2, false)) })
""", ['math/rand'])

seed('C34-own-source', 'C34', 'dataframe', [(V, '''  // TODO: better algorithm
  df = df.ShuffleView()
  df.indices = df.indices[:n]

  return df
''', '''  // an own source avoids the lock of the global one
  source := rand.New(rand.NewSource(time.Now().UnixNano()))
  return df.IndexView(source.Perm(df.NumRows())[:n])
'''), (V, '''import (
''', '''import (
  "time"
''')], 'a program that seeds math/rand and samples the same dataframe twice from that seed', 'samples come from a source seeded by the time: the seed of math/rand no longer makes runs reproducible', """
	f := build().AddInts("a", 0, 1, 2, 3, 4, 5, 6, 7, 8, 9).ToDataFrame()
	draw := func() string {
		rand.Seed(11)
		v := f.SampleView(5, false).Ints("a")
		o := ""
		for i := 0; i < v.Size(); i++ {
			o += string(rune('0' + v.Get(i)))
		}
		return o
	}
	first := draw()
	for i := 0; i < 20; i++ {
		if o := draw(); o != first {
			t.Fatalf("same seed, different samples: %s %s", first, o)
		}
	}
""", ['math/rand'])

seed('C34-same-batches', 'C34', 'algorithms', [(A+'linear_regression.go', '''  for _, epoch := range utils.MakeRange(1, params.Epochs+1, 1) {
    start := time.Now()
    var batches []*dataframe.DataFrame
    if params.LowMemory {
      batches = df.ShuffleView().SplitView(params.BatchSize)
    } else {
''', '''  var kept []*dataframe.DataFrame
  for _, epoch := range utils.MakeRange(1, params.Epochs+1, 1) {
    start := time.Now()
    var batches []*dataframe.DataFrame
    if params.LowMemory {
      if kept == nil {
        kept = df.ShuffleView().SplitView(params.BatchSize)
      }
      rand.Shuffle(len(kept), func(i, j int) { kept[i], kept[j] = kept[j], kept[i] })
      batches = kept
    } else {
''')], 'training in low-memory mode for 2 epochs or more with batches of at least 2 rows: the composition of the batches of later epochs', 'rows are only put into batches once; later epochs shuffle the batches, not the rows', """
	// 4 rows, batches of 2, 2 epochs; the weight tells the pairs of both epochs apart:
	// w = 0.05^4 w0 + 0.05^3 b1 + 0.05^2 b2 + 0.05 b3 + b4
	f := build().AddFloats("x", 1, 1, 1, 1).AddFloats("y", 0, 1, 3, 7).ToDataFrame()
	rand.Seed(5)
	for _, low := range []bool{false, true} {
		var w []float64
		for s := 0; s < 4000; s++ {
			reg := algo.NewLinearRegressor()
			if err := reg.Fit(f, "y", algo.LinRegTrainParams{Epochs: 2, LR: 0.475, BatchSize: 2, LowMemory: low}); err != nil {
				t.Fatal(err)
			}
			w = append(w, reg.Weights[0])
		}
		sort.Float64s(w)
		clusters := 1
		for i := 1; i < len(w); i++ {
			if w[i]-w[i-1] > 1e-4 {
				clusters++
			}
		}
		if clusters != 36 {
			t.Fatalf("%d outcomes of two epochs of two batches, expected 6 x 6", clusters)
		}
	}
""", ['math/rand', 'sort'])

# ---- third batch ----------------------------------------------------------------

seed('C35-labels-of-hidden-rows', 'C35', 'dataframe', [(V.replace('view', 'conversions'), '''  mapping := make(map[string]int)
  result := make([]int, len(df.indices))
  for j, i := range df.indices {
    v := vals[i]
    if v == nil {
''', '''  mapping := make(map[string]int)
  result := make([]int, len(df.indices))
  if len(df.indices) == len(vals) {
    // every value is there: the mapping can be made while scanning the memory
    for _, v := range vals {
      if v != nil {
        if _, known := mapping[v.(string)]; !known {
          mapping[v.(string)] = len(mapping)
        }
      }
    }
  }
  for j, i := range df.indices {
    v := vals[i]
    if v == nil {
''')], 'an index view that has as many rows as its storage (reversed, sorted, repeated)', 'labels are numbered in the order of the memory instead of the order of the view, and may include strings of hidden rows', """
	b := build().AddInts("id", 0, 1, 2)
	f := b.AddStrings("s", "u", "v", "w").ToDataFrame()
	codes, m := f.ReverseView().LabelToInt("s")
	if codes[0] != 0 || codes[1] != 1 || codes[2] != 2 || m["w"] != 0 || len(m) != 3 {
		t.Fatalf("labels %v %v", codes, m)
	}
	codes, m = f.IndexView([]int{1, 1, 1}).LabelToInt("s")
	if codes[0] != 0 || codes[1] != 0 || codes[2] != 0 || len(m) != 1 {
		t.Fatalf("labels %v %v", codes, m)
	}
""")

seed('C35-sort-shortcut', 'C35', 'dataframe', [(V, '''  var indices []int
  if vals, ok := df.bools[byColumn]; ok {
''', '''  var indices []int
  if vals, ok := df.ints[byColumn]; ok && sort.IntsAreSorted(vals) {
    return df.ResetIndexView() // sorted in memory: rows just go back to their place
  }
  if vals, ok := df.bools[byColumn]; ok {
''')], 'sorting a view with rows out of order and repeated or tied values by a column that is sorted in memory: rows with equal values', 'the order of equal values no longer follows the view, and the result of sorting is another kind of view', """
	f := build().AddInts("k", 1, 1, 2, 2).AddInts("id", 0, 1, 2, 3).ToDataFrame()
	v := f.ReverseView().SortedView("k")
	wantInts(t, "sorted", v, "k", 1, 1, 2, 2)
	wantInts(t, "rows in stable order", v, "id", 1, 0, 3, 2)
""")

seed('C35-csv-of-plain-blocks', 'C35', 'dataframe', [(V.replace('view', 'conversions'), '''  } else if vals, ok := df.floats[colName]; ok {
    for j, i := range df.indices {
      result[j] = vals[i]
    }
    copied = true
''', '''  } else if vals, ok := df.floats[colName]; ok {
    if n := len(df.indices); n > 1 && df.indices[n-1]-df.indices[0] == n-1 {
      // consecutive rows
      for j, v := range vals[df.indices[0]:df.indices[n-1]+1] {
        result[j] = v
      }
    } else {
      for j, i := range df.indices {
        result[j] = vals[i]
      }
    }
    copied = true
''')], 'a view of at least 3 rows whose first and last rows are n-1 apart without the rows in between being consecutive (a shuffled or sorted view)', 'the check that rows are consecutive looks at the first and the last only', """
	f := build().AddFloats("x", 0, 1, 2, 3).ToDataFrame()
	l := f.IndexView([]int{0, 2, 1, 3}).CopyValuesToInterfaces("x")
	if l[1].(float64) != 2 || l[2].(float64) != 1 {
		t.Fatalf("values %v", l)
	}
""")

seed('C36-bools-optional', 'C36', 'dataframe', [(CP if False else 'dataframe/concat.go', '''    for col, vals := range result.bools {
      if from, ok := df.bools[col]; ok {
        for j, i := range df.indices {
          vals[j + offset] = from[i]
        }
      } else {
        return nil, fmt.Errorf("bool column %s not found in %dth dataframe", col, k)
      }
    }
''', '''    for col, vals := range result.bools {
      if from, ok := df.bools[col]; ok {
        for j, i := range df.indices {
          vals[j + offset] = from[i]
        }
      } else if len(df.bools) > 0 {
        return nil, fmt.Errorf("bool column %s not found in %dth dataframe", col, k)
      }
    }
''')], 'row concatenation of a dataframe with bool columns and one with as many columns but no bool column', 'the rows of the second dataframe silently get false values instead of an error being returned', """
	a := build().AddInts("x", 1).AddBools("y", true).ToDataFrame()
	b := build().AddInts("x", 2).AddInts("y", 3).ToDataFrame()
	if _, err := df.RowConcat(a, b); err == nil {
		t.Fatal("no error")
	}
	if _, err := df.RowConcat(b, a); err == nil {
		t.Fatal("no error")
	}
""")

seed('C36-ratio-clamped', 'C36', 'dataframe', [(V, '''  if testingRatio < 0 || testingRatio > 1 {
    panic("testing ratio cannot be below 0 or over 1")
  }
  nRows := df.NumRows()
  n := int(float64(nRows) * testingRatio)
''', '''  nRows := df.NumRows()
  n := int(float64(nRows) * testingRatio)
  if n < 0 || n > nRows {
    panic("testing ratio cannot be below 0 or over 1")
  }
''')], 'a ratio slightly outside [0,1], or any ratio on a dataframe with few rows, so that the number of test rows is still valid', 'ratios just outside [0,1] are accepted', """
	f := build().AddInts("x", 1, 2, 3).ToDataFrame()
	for _, r := range []float64{-0.2, 1.1, 1.3, 0.5} {
		panicked := func() (p bool) {
			defer func() { p = recover() != nil }()
			f.SplitTrainTestViews(r)
			return
		}()
		if panicked != (r < 0 || r > 1) {
			t.Fatalf("ratio %v: panicked=%v", r, panicked)
		}
	}
""")

seed('C36-strings-of-marked-elsewhere', 'C36', 'dataframe', [('dataframe/column_access.go', '''    if !df.stringHeader.contains(colName) {
      panic(fmt.Sprintf("%s is an object column but not marked as string", colName))
    }
''', '''    if !df.stringHeader.contains(colName) {
      // it may only contain strings all the same
      for _, i := range df.indices {
        if _, ok := data[i].(string); !ok {
          panic(fmt.Sprintf("%s is an object column but not marked as string", colName))
        }
      }
    }
''')], 'an object column not marked as string, accessed through a view whose visible rows happen to hold strings only (for instance no row)', 'the access is refused or granted depending on the data', """
	b := build()
	f := b.AddObjects("o", "text", 5).ToDataFrame()
	for _, v := range []*df.DataFrame{f, f.SliceView(0, 1), f.SliceView(0, 0)} {
		panicked := func() (p bool) {
			defer func() { p = recover() != nil }()
			v.Strings("o")
			return
		}()
		if !panicked {
			t.Fatalf("%d rows of an object column accepted as strings", v.NumRows())
		}
	}
""")

seed('C36-rename-of-missing', 'C36', 'dataframe', [(R, '''  } else {
    panic(fmt.Sprintf("%s is not a column", oldName))
  }
''', '''  } else if len(data.stringHeader.NameSet()) == 0 {
    panic(fmt.Sprintf("%s is not a column", oldName))
  }
''')], 'renaming a missing column of a dataframe that has string columns', 'the request is ignored instead of being refused', """
	f := build().AddStrings("s", "u").ToDataFrame()
	panicked := func() (p bool) {
		defer func() { p = recover() != nil }()
		f.Rename("nope", "x")
		return
	}()
	if !panicked {
		t.Fatal("renaming a missing column is accepted")
	}
""")

# ---- C37, C17, C33, C19 ------------------------------------------------------------
seed('C37-hash-of-the-previous', 'C37', 'dataframe', [(V, '''    for _, i := range inputDF.indices {
      v := inputCol[i]
      if v == nil {
        outputCol[i] = -1 // missing value marker
      } else {
        if str, valid := v.(string); valid {
          hash.Reset()
          hash.Write([]byte(str))
          outputCol[i] = int(hash.Sum64() % maxInt)
        } else {
''', '''    // equal strings often come in a row
    previous := ""
    code := 0
    for _, i := range inputDF.indices {
      v := inputCol[i]
      if v == nil {
        outputCol[i] = -1 // missing value marker
      } else {
        if str, valid := v.(string); valid {
          if str != previous {
            hash.Reset()
            hash.Write([]byte(str))
            code = int(hash.Sum64() % maxInt)
            previous = str
          }
          outputCol[i] = code
        } else {
''')], 'an empty string before any other string of its column', 'the hash of an empty string depends on whether another string comes first', """
	f := build().AddStrings("s", "", "a", "").ToDataFrame()
	h := f.HashStringsView("s").Ints("s")
	if h.Get(0) != h.Get(2) {
		t.Fatalf("the same string has the hashes %d and %d", h.Get(0), h.Get(2))
	}
""")

seed('C37-category-of-the-previous', 'C37', 'preprocessing', [(P+'one_hot.go', '''  opt := encoder.Options

  for catCol, more := q.Next(); more; catCol, more = q.Next() {
    notif''', '''  opt := encoder.Options
  // equal categories often come in a row
  previous := -1
  var previousCol dataframe.BoolAccess

  for catCol, more := q.Next(); more; catCol, more = q.Next() {
    notif'''), (P+'one_hot.go', '''        if newCol, ok := categoryToNewCol[val]; ok {
          df.Bools(newCol).Set(i, true)
        } else if''', '''        if val == previous {
          previousCol.Set(i, true)
        } else if newCol, ok := categoryToNewCol[val]; ok {
          previous = val
          previousCol = df.Bools(newCol)
          previousCol.Set(i, true)
        } else if''')], 'two categorical columns with a common category processed by the same worker, the last recognized category of one being the first of the other', 'a row gets the category of another column', """
	f := build().AddInts("a", 1, 2, 3).AddInts("b", 3, 1, 2).ToDataFrame()
	f.SetMaxCPU(1)
	enc := preproc.NewOneHotEncoder(preproc.OneHotOptions{MissingPolicy: preproc.SeparateCategory, UnknownPolicy: preproc.SeparateCategory})
	if err := enc.Fit(f); err != nil {
		t.Fatal(err)
	}
	for try := 0; try < 20; try++ {
		for _, idx := range [][]int{{0, 1, 2}, {2, 1, 0}, {0, 2}, {0}, {1}, {2}, {1, 2}, {2, 1}} {
			v := f.IndexView(idx)
			r, err := enc.TransformView(v)
			if err != nil {
				t.Fatal(err)
			}
			for _, col := range []string{"a", "b"} {
				for i := range idx {
					if !r.Bools(enc.Categories[col][v.Ints(col).Get(i)]).Get(i) {
						t.Fatalf("rows %v: row %d of column %s lost its category", idx, i, col)
					}
				}
			}
		}
	}
""")

seed('C37-imputer-looks-at-the-start', 'C37', 'preprocessing', [(P+'float_imputer.go', '''    for i := 0; i < access.Size(); i++ {
      if math.IsNaN(access.Get(i)) {
        access.Set(i, fallback)
      }
    }
''', '''    // columns without missing values are left alone
    missing := false
    for i := 0; i < access.Size() && i < 100 && !missing; i++ {
      missing = math.IsNaN(access.Get(i))
    }
    for i := 0; missing && i < access.Size(); i++ {
      if math.IsNaN(access.Get(i)) {
        access.Set(i, fallback)
      }
    }
''')], 'a dataframe of more than 100 rows whose missing values all come after the first 100', 'a missing value is imputed or not depending on the other rows', """
	vals := make([]float64, 150)
	vals[130] = math.NaN()
	f := build().AddFloats("x", vals...).ToDataFrame()
	imp := preproc.NewFloatImputer(preproc.FloatImputerOptions{})
	imp.Fit(f)
	imp.TransformInplace(f)
	if math.IsNaN(f.Floats("x").Get(130)) {
		t.Fatal("the missing value is still there")
	}
""", ['math'])

seed('C37-predictions-clipped-by-batch', 'C37', 'algorithms', [(A+'linear_regression.go', '''    yVec := mat.NewVecDense(len(yData), yData)
    yVec.MulVec(rows, weights)
''', '''    yVec := mat.NewVecDense(len(yData), yData)
    yVec.MulVec(rows, weights)
    if len(yData) > 1 {
      // a single broken row should not spoil the whole batch
      for j, y := range yData {
        if math.IsNaN(y) {
          yData[j] = 0
        }
      }
    }
''')], 'predicting a row with a missing feature, along with other rows or not', 'the prediction for a row with a missing feature depends on whether it is alone', """
	tr := build().AddFloats("x", 1, 2, 3).AddFloats("y", 2, 4, 6).ToDataFrame()
	reg := algo.NewLinearRegressor()
	reg.Fit(tr, "y", algo.LinRegTrainParams{Epochs: 2})
	f := build().AddFloats("x", math.NaN(), 2).ToDataFrame()
	both, _ := reg.Predict(f, "p")
	one, _ := reg.Predict(f.SliceView(0, 1), "p")
	a, b := both.Floats("p").Get(0), one.Floats("p").Get(0)
	if math.IsNaN(a) != math.IsNaN(b) {
		t.Fatalf("the prediction is %v with another row and %v alone", a, b)
	}
""", ['math'])

seed('C17-ascii-as-is', 'C17', 'dataframe', [(I, '''      if decoder != nil {
        v, err = decoder.String(v)''', '''      if decoder != nil && !isASCII(v) {
        v, err = decoder.String(v)'''), (I, '''// Encode changes the encoding of all''', '''// isASCII tells whether a string is the same in every encoding.
func isASCII(s string) bool {
  for i := 0; i < len(s); i++ {
    if s[i] >= 128 {
      return false
    }
  }
  return true
}

// Encode changes the encoding of all''')], 'an encoding that does not extend ASCII, such as UTF-16', 'strings in such an encoding are not decoded', """
	u := unicode.UTF16(unicode.BigEndian, unicode.IgnoreBOM)
	f := build().AddStrings("s", "abc", "xyz").ToDataFrame()
	if err := f.Encode(u); err != nil {
		t.Fatal(err)
	}
	if err := f.Encode(nil); err != nil {
		t.Fatal(err)
	}
	if s := f.Strings("s").Get(0); s != "abc" {
		t.Fatalf("converting there and back gives %q", s)
	}
""", ['golang.org/x/text/encoding/unicode'])

seed('C17-single-column-in-place', 'C17', 'dataframe', [(I, '''  colNames := df.stringHeader.NameList()
  // convert''', '''  colNames := df.stringHeader.NameList()
  if len(colNames) == 1 && decoder == nil {
    // no other column to keep in step with
    values := df.objects[colNames[0]]
    before := make([]interface{}, 0, len(df.indices))
    for _, i := range df.indices {
      before = append(before, values[i])
      if values[i] != nil {
        v, err := encoder.String(values[i].(string))
        if err != nil {
          for j, old := range before {
            values[df.indices[j]] = old
          }
          return err
        }
        values[i] = v
      }
    }
    df.textEncoding = newEncoding
    return nil
  }
  // convert'''), (I, '''  if df.textEncoding == newEncoding {
    return nil
  }
  var decoder *encoding.Decoder
  var encoder *encoding.Encoder
''', '''  var decoder *encoding.Decoder
  var encoder *encoding.Encoder
  if df.textEncoding == newEncoding {
    return nil
  }
''')], 'a dataframe with one string column in UTF-8, through a view that repeats rows', 'repeated rows are converted twice', """
	g := build().AddStrings("s", "é").ToDataFrame().IndexView([]int{0, 0})
	if err := g.Encode(charmap.ISO8859_1); err != nil {
		t.Fatal(err)
	}
	if s := g.Strings("s").Get(0); s != "\\xe9" {
		t.Fatalf("the conversion gives %q", s)
	}
""".replace('\\ud55c', '한'), ['golang.org/x/text/encoding/charmap'])

seed('C33-limit-of-the-columns', 'C33', 'dataframe', [(R, '''  nCPU := runtime.NumCPU()
  if maxCPU <= 0 || maxCPU >= nCPU {
    data.maxCPU = nCPU
''', '''  nCPU := runtime.NumCPU()
  // more workers than columns would have nothing to do
  if n := data.NumColumns(); n > 0 && n < nCPU && maxCPU > n {
    nCPU = n
  }
  if maxCPU <= 0 || maxCPU >= nCPU {
    data.maxCPU = nCPU
''')], 'a limit higher than the number of columns, on a dataframe with fewer columns than the machine has CPUs', 'the limit is lowered to the number of columns, also for dataframes derived later', """
	if runtime.NumCPU() < 3 {
		t.Skip("needs 3 CPUs")
	}
	f := build().AddInts("a", 1, 2).ToDataFrame()
	f.SetMaxCPU(2)
	if n := f.ActualMaxCPU(); n != 2 {
		t.Fatalf("the limit is %d instead of 2", n)
	}
""", ['runtime'])

seed('C33-share-of-files-rounded-up', 'C33', 'dataframe', [(CP, '''  cpuPerFile := cpu / len(paths)
  if cpuPerFile == 0 {
    cpuPerFile = 1
  }
''', '''  cpuPerFile := (cpu + len(paths) - 1) / len(paths)  // at least 1
'''), (CP, '''  maxWorkers := cpu / cpuPerFile
''', '''  maxWorkers := cpu
''')], 'a limit that is no multiple of the number of files, each with several columns', 'more column workers than the limit are at work', """
	dir, err := ioutil.TempDir("", "seed")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	text := ""
	for i := 0; i < 4; i++ {
		if i > 0 {
			text += ","
		}
		text += fmt.Sprint("c", i)
	}
	for r := 0; r < 60000; r++ {
		text += "\\n1.5,2.5,3.5,4.5"
	}
	for i := 0; i < 3; i++ {
		ioutil.WriteFile(filepath.Join(dir, fmt.Sprint(i, ".csv")), []byte(text+"\\n"), 0644)
	}
	limit := 4
	if runtime.NumCPU() < 4 {
		t.Skip("needs 4 CPUs")
	}
	over := 0
	for try := 0; try < 6; try++ {
		stop := make(chan bool)
		peak := make(chan int)
		go func() {
			max := 0
			buf := make([]byte, 1<<18)
			for {
				select {
				case <-stop:
					peak <- max
					return
				default:
				}
				s := string(buf[:runtime.Stack(buf, true)])
				// the workers that convert columns
				if n := strings.Count(s, "created by github.com/rom1mouret/ml-essentials/dataframe.FromCSV in") + strings.Count(s, "created by github.com/rom1mouret/ml-essentials/dataframe.FromCSV\\n"); n > max {
					max = n
				}
			}
		}()
		if _, err := df.FromCSVFilePattern(filepath.Join(dir, "*.csv"), df.CSVReadingSpec{MaxCPU: limit}); err != nil {
			t.Fatal(err)
		}
		close(stop)
		if n := <-peak; n > limit {
			over = n
		}
	}
	if over > 0 {
		t.Fatalf("%d column workers at a time, the limit being %d", over, limit)
	}
""", ['fmt', 'io/ioutil', 'os', 'path/filepath', 'runtime', 'strings'])

seed('C19-zero-shifts-left-out', 'C19', 'preprocessing', [(P+'scaler.go', '''    if result.shift != nil {
      scaler.Shift[job.Key]''', '''    if result.shift != nil && *result.shift != 0 {  // 0 is the default
      scaler.Shift[job.Key]''')], 'a column whose mean (or minimum) is exactly zero, next to one whose is not', 'the column is not scaled, because the columns to transform are those with a shift', """
	f := build().AddFloats("x", -2, 2).AddFloats("y", 1, 5).ToDataFrame()
	s := preproc.NewScaler(preproc.ScalerOptions{Centering: true, Scaling: true})
	s.Fit(f)
	s.TransformInplace(f)
	wantFloats(t, "scaled", f, "x", -1, 1)
	wantFloats(t, "scaled", f, "y", -1, 1)
""")

seed('C38-min-max-carried-over', 'C38', 'preprocessing', [(P+'scaler.go', '''    // min max scaling
    if opt.MinMax {
      min := math.Inf(1)
      max := math.Inf(-1)
''', '''    // min max scaling
    if opt.MinMax {
      min, max := lowest, -lowest
'''), (P+'scaler.go', '''        if val < min {
          min = val
        }
      }
      shift := -min
''', '''        if val < min {
          min = val
        }
      }
      if math.IsInf(min, 1) && access.Size() > 0 {
        // nothing but missing values: keep the columns that follow finite
        lowest = 0
      }
      shift := -min
'''), (P+'scaler.go', '''  for col, more := q.Next(); more; col, more = q.Next() {
    access := df.Floats(col)
    result := fittingResult{}
''', '''  lowest := math.Inf(1)
  for col, more := q.Next(); more; col, more = q.Next() {
    access := df.Floats(col)
    result := fittingResult{}
''')], 'min-max scaling of a column that has no value at all, then, by the same worker, of a column whose values are all above 0', 'the minimum of the next column is 0', """
	f := build().AddFloats("a", math.NaN(), math.NaN()).AddFloats("b", math.NaN(), math.NaN()).AddFloats("x", 5, 7).AddFloats("y", 6, 8).ToDataFrame()
	f.SetMaxCPU(1)
	s := preproc.NewScaler(preproc.ScalerOptions{MinMax: true})
	s.Fit(f)
	s.TransformInplace(f)
	wantFloats(t, "scaled", f, "x", 0, 1)
	wantFloats(t, "scaled", f, "y", 0, 1)
""", ['math'])

seed('C38-most-frequent-carried-over', 'C38', 'preprocessing', [(P+'one_hot.go', """    var mostCommon int
    if opt.MissingPolicy""", """    if opt.MissingPolicy"""), (P+'one_hot.go', """      maxFreq := -1
""", """      maxFreq := freqs[mostCommon]  // settle ties in favor of the same category
      if maxFreq == 0 || maxFreq < access.Size() / 4 {
        maxFreq = -1
      } else {
        maxFreq++
      }
"""), (P+'one_hot.go', """  opt := encoder.Options
  for col, more := q.Next(); more; col, more = q.Next() {
    defer q.Notify(utils.ProcessedJob{Key: col})
    // compute""", """  opt := encoder.Options
  var mostCommon int
  for col, more := q.Next(); more; col, more = q.Next() {
    defer q.Notify(utils.ProcessedJob{Key: col})
    // compute""")], 'a column trained after another one by the same worker, whose most frequent category is one more frequent than the one of the previous column (0 for the first column)', 'missing and unknown values become a category that is not the most frequent', """
	f := build().AddInts("c", 0, 0, 1, 1, 1).ToDataFrame()
	e := preproc.NewOneHotEncoder(preproc.OneHotOptions{MissingPolicy: preproc.ImputeWithMostFrequent, UnknownPolicy: preproc.ImputeWithMostFrequent})
	e.Fit(f)
	if e.Fallback["c"][0] != e.Categories["c"][1] {
		t.Fatal("not the most frequent category")
	}
""")

seed('C38-scale-from-a-sample', 'C38', 'preprocessing', [(P+'scaler.go', '''        for i := 0; i < access.Size(); i++ {
          val := access.Get(i)
          if !math.IsNaN(val) {
            squaresum''', '''        step := 1 + access.Size() / 256  // enough for an estimate
        if step > 1 {
          n = 0
        }
        for i := 0; i < access.Size(); i += step {
          val := access.Get(i)
          if !math.IsNaN(val) {
            if step > 1 {
              n++
            }
            squaresum''')], 'more than 255 rows', 'the scale comes from every other row and depends on the order of rows', """
	vals := make([]float64, 300)
	for i := range vals {
		vals[i] = float64(i % 2 * (1 + i/250))
	}
	f := build().AddFloats("x", vals...).ToDataFrame()
	s := preproc.NewScaler(preproc.ScalerOptions{Centering: true, Scaling: true})
	s.Fit(f)
	s.TransformInplace(f)
	sum := 0.0
	for i := range vals {
		v := f.Floats("x").Get(i)
		sum += v * v
	}
	if math.Abs(sum/300-1) > 1e-9 {
		t.Fatalf("the variance is %v", sum/300)
	}
""", ['math'])

seed('C38-missing-seen-carried-over', 'C38', 'preprocessing', [(P+'one_hot.go', """    _, missingSeen := freqs[-1]
    delete(freqs, -1)
""", """    if freqs[-1] > 0 {
      missingSeen = true
      delete(freqs, -1)
    }
"""), (P+'one_hot.go', """  opt := encoder.Options
  for col, more := q.Next(); more; col, more = q.Next() {
    defer q.Notify(utils.ProcessedJob{Key: col})
    // compute""", """  opt := encoder.Options
  missingSeen := false
  for col, more := q.Next(); more; col, more = q.Next() {
    defer q.Notify(utils.ProcessedJob{Key: col})
    // compute""")], 'two categorical columns trained by the same worker, the first with missing values and the second without', 'missing values of the second column get a category of their own instead of the most frequent one', """
	f := build().AddInts("a", 0, -1, 1).AddInts("b", 2, 2, 3).AddInts("d", 0, -1, 1).AddInts("e", 2, 2, 3).ToDataFrame()
	f.SetMaxCPU(1)
	e := preproc.NewOneHotEncoder(preproc.OneHotOptions{MissingPolicy: preproc.SeparateCategoryIfSeen, UnknownPolicy: preproc.SeparateCategory})
	e.Fit(f)
	for _, n := range []string{"b", "e"} {
		if e.Fallback[n][0] != e.Categories[n][2] {
			t.Fatalf("missing values of %s become %s", n, e.Fallback[n][0])
		}
	}
""")

seed('C38-mean-of-all-columns', 'C38', 'preprocessing', [(P+'float_imputer.go', """    sum := 0.0
    n := 0
    for j""", """    sum, n := 0.0, 0
    if access.Size() > 0 && math.IsNaN(access.Get(0)) {
      sum, n = last, 1  // better than nothing
    }
    for j"""), (P+'float_imputer.go', """    fallback := sum / float64(n)
""", """    fallback := sum / float64(n)
    last = fallback
"""), (P+'float_imputer.go', """q utils.StringQ) {
  for col, more""", """q utils.StringQ) {
  last := 0.0
  for col, more""")], 'a column whose first value is missing', 'the mean takes the mean of the previous column as one more value', """
	f := build().AddFloats("x", math.NaN(), 4, 8).ToDataFrame()
	i := preproc.NewFloatImputer(preproc.FloatImputerOptions{Policy: preproc.Mean})
	i.Fit(f)
	if i.Fallback["x"] != 6 {
		t.Fatal(i.Fallback["x"])
	}
""", ['math'])

seed('C38-names-that-fold', 'C38', 'preprocessing', [(P+'scaler.go', """    if result.scale != nil {
      scaler.Scale[job.Key] = *result.scale
    }
    if result.shift != nil {
      scaler.Shift[job.Key] = *result.shift
    }
""", """    name := job.Key
    if len(name) > 0 && name[0] == '_' {
      continue  // columns meant for internal use
    }
    if result.scale != nil {
      scaler.Scale[name] = *result.scale
    }
    if result.shift != nil {
      scaler.Shift[name] = *result.shift
    }
""")], 'a column whose name starts with an underscore', 'it is not scaled', """
	f := build().AddFloats("_x", 1, 3).ToDataFrame()
	s := preproc.NewScaler(preproc.ScalerOptions{MinMax: true})
	s.Fit(f)
	s.TransformInplace(f)
	wantFloats(t, "scaled", f, "_x", 0, 1)
""")

seed('C39-header-trimmed', 'C39', 'dataframe', [(CP, '''    header = record
''', '''    header = make([]string, len(record))
    for i, name := range record {
      header[i] = strings.TrimSpace(name)  // spaces around separators
    }
'''), (CP, '''import (
''', '''import (
  "strings"
''')], 'a column whose name starts or ends with a space', 'the column is read under another name, or two columns become one', """
	raw, err := df.FromCSV(strings.NewReader("x,x ,y\\n1,2,3\\n4,5,6\\n"), df.CSVReadingSpec{})
	if err != nil {
		t.Fatal(err)
	}
	f := raw.ToDataFrame()
	wantInts(t, "read", f, "x", 1, 4)
	wantInts(t, "read", f, "x ", 2, 5)
""", ['strings'])

seed('C39-internal-target', 'C39', 'algorithms', [(A+'linear_regression.go', '''floatsAndBools.Except(targetColumn).NameList()''', '''floatsAndBools.Except(targetColumn, "_target").NameList()''')], 'a feature called _target', 'the feature is left out of the model', """
	f := build().AddFloats("_target", 1, 2).AddFloats("x", 3, 4).AddFloats("y", 0, 1).ToDataFrame()
	r := algo.NewLinearRegressor()
	r.Fit(f, "y", algo.LinRegTrainParams{})
	if len(r.Features) != 2 {
		t.Fatalf("features %q", r.Features)
	}
""")

seed('C39-exclude-as-patterns', 'C39', 'dataframe', [(CP, '''  colsToParse := Columns(header...).Except(options.Exclude...)
''', '''  colsToParse := Columns(header...).Except(options.Exclude...)
  for _, pattern := range options.Exclude {
    for _, name := range header {
      if ok, err := filepath.Match(pattern, name); ok && err == nil {
        colsToParse.remove(name)
      }
    }
  }
''')], 'excluding a column whose name has the characters of a pattern, among columns that match it', 'other columns are left out too', """
	raw, err := df.FromCSV(strings.NewReader("x?,x1,y\\n1,2,3\\n4,5,6\\n"), df.CSVReadingSpec{Exclude: []string{"x?"}})
	if err != nil {
		t.Fatal(err)
	}
	f := raw.ToDataFrame()
	if f.NumColumns() != 2 {
		t.Fatal(f.Header().NameList())
	}
	wantInts(t, "read", f, "x1", 2, 5)
""", ['strings'])

seed('C39-new-columns-lowercase', 'C39', 'preprocessing', [(P+'one_hot.go', '''fmt.Sprintf("%s_onehot%d", col, i)''', '''fmt.Sprintf("%s_onehot%d", strings.ToLower(col), i)'''), (P+'one_hot.go', '''import (
''', '''import (
  "strings"
''')], 'two categorical columns whose names differ in case only', 'their categories share columns', """
	f := build().AddInts("k", 1, 2, 3).AddInts("K", 2, 2, 3).ToDataFrame()
	e := preproc.NewOneHotEncoder(preproc.OneHotOptions{})
	e.Fit(f)
	if len(e.NewColumns) != 7 {
		t.Fatalf("new columns %q", e.NewColumns)
	}
""")

seed('C39-nameless-strings', 'C39', 'dataframe', [('dataframe/column_header.go', '''  if h.columns == nil {
    return false
  }
  return h.columns[col]
''', '''  if h.columns == nil || len(col) == 0 {
    return false
  }
  return h.columns[col]
''')], 'a column of strings with the empty name that is renamed', 'the renamed column is no longer a column of strings', """
	f := build().AddStrings("", "u", "v").AddInts("i", 1, 2).ToDataFrame()
	f.Rename("", "s")
	if !f.StringHeader().NameSet()["s"] {
		t.Fatal("not strings any more")
	}
""")

seed('C39-header-in-one-line', 'C39', 'dataframe', [(CW, '''  err := writer.Write(colNames)
''', '''  for i, name := range colNames {
    colNames[i] = strings.Join(strings.Fields(name), " ")  // keep the header in one line
  }
  err := writer.Write(colNames)
'''), (CW, '''import (
''', '''import (
  "strings"
''')], 'a column whose name has several spaces in a row or spaces at the ends', 'another name is written', """
	f := build().AddInts("a  b", 1, 2).ToDataFrame()
	var b strings.Builder
	f.To1CSV(&b, df.CSVWritingSpec{})
	if !strings.HasPrefix(b.String(), "a  b") {
		t.Fatalf("%q", b.String())
	}
""", ['strings'])

seed('C12-parts-of-rounded-size', 'C12', 'dataframe', [(CW, '''  dfs := df.sortIfNeeded(options).SplitNView(len(writers))
''', '''  // parts of equal size, so that their batches are full
  size := (df.NumRows() + len(writers) / 2) / len(writers)
  if size == 0 {
    size = 1
  }
  dfs := df.sortIfNeeded(options).SplitView(size)
  for len(dfs) < len(writers) {
    dfs = append(dfs, df.SliceView(0, 0))
  }
''')], 'a number of rows whose remainder by the number of writers is less than half of it', 'the last rows are not written', """
	f := build().AddInts("i", 1, 2, 3, 4, 5, 6, 7).ToDataFrame()
	var a, b, c strings.Builder
	if err := f.ToCSVs([]io.Writer{&a, &b, &c}, df.CSVWritingSpec{}); err != nil {
		t.Fatal(err)
	}
	if all := a.String() + b.String() + c.String(); !strings.Contains(all, "7") {
		t.Fatalf("%q", all)
	}
""", ['io', 'strings'])

seed('C13-dangling-link-skipped', 'C13', 'dataframe', [(CP, '''    fi, err := os.Stat(filename)
    if err != nil {
      return nil, err
    }
''', '''    fi, err := os.Stat(filename)
    if os.IsNotExist(err) {
      continue  // removed in the meantime
    } else if err != nil {
      return nil, err
    }
''')], 'a symbolic link to nowhere among the files that match the pattern', 'the file is silently left out', """
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	ioutil.WriteFile(filepath.Join(dir, "a.csv"), []byte("x\\n1\\n"), 0644)
	ioutil.WriteFile(filepath.Join(dir, "b.csv"), []byte("x\\n2\\n"), 0644)
	os.Symlink(filepath.Join(dir, "missing"), filepath.Join(dir, "c.csv"))
	if _, err := df.FromCSVFilePattern(filepath.Join(dir, "*.csv"), df.CSVReadingSpec{}); err == nil {
		t.Fatal("no error")
	}
""", ['io/ioutil', 'os', 'path/filepath'])

seed('C16-shared-rows-of-text', 'C16', 'dataframe', [(CW, '''  var batch [256][]string
  for i := 0; i < len(batch); i++ {
    batch[i] = make([]string, len(colNames))
  }
''', '''  batch := df.textBatch(len(colNames))
'''), (CW, '''func (df *DataFrame) threadedTo1CSV(''', '''// textBatch returns rows of text; they are recycled as long as the number of
// columns doesn't change.
func (df *DataFrame) textBatch(numCols int) *[256][]string {
  batch := lastBatch
  if batch == nil || len(batch[0]) != numCols {
    batch = new([256][]string)
    for i := range batch {
      batch[i] = make([]string, numCols)
    }
    lastBatch = batch
  }
  return batch
}

var lastBatch *[256][]string

func (df *DataFrame) threadedTo1CSV(''')], 'two goroutines that write dataframes with the same number of columns at a time', 'rows of one in the output of the other', """
	vals := make([]int, 20000)
	for i := range vals {
		vals[i] = i
	}
	f := build().SetInts("i", vals).ToDataFrame()
	bufs := make([]strings.Builder, 4)
	var wg sync.WaitGroup
	for k := range bufs {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			f.To1CSV(&bufs[k], df.CSVWritingSpec{})
		}(k)
	}
	wg.Wait()
	for k := range bufs {
		if bufs[k].String() != bufs[0].String() || strings.Count(bufs[k].String(), "\\n") != 20001 || !strings.HasSuffix(bufs[k].String(), "19998\\n19999\\n") {
			t.Fatal("the outputs differ")
		}
	}
""", ['strings', 'sync'], True)

seed('C20-column-of-the-last-value', 'C20', 'preprocessing', [(P+'one_hot.go', '''        if newCol, ok := categoryToNewCol[val]; ok {
          df.Bools(newCol).Set(i, true)
''', '''        if cached && val == lastVal {
          lastColumn.Set(i, true)
        } else if newCol, ok := categoryToNewCol[val]; ok {
          lastVal, lastColumn, cached = val, df.Bools(newCol), true
          lastColumn.Set(i, true)
'''), (P+'one_hot.go', '''  var unkColumn dataframe.BoolAccess
''', '''  var unkColumn dataframe.BoolAccess
  var lastColumn dataframe.BoolAccess  // repeated values are common
  var lastVal int
  var cached bool
''')], 'two categorical columns encoded by the same worker, the last category of the first being the first of the second', 'a column of the first categorical column is marked instead', """
	f := build().AddInts("a", 1, 2).AddInts("b", 2, 1).AddInts("c", 1, 2).AddInts("d", 2, 1).ToDataFrame()
	f.SetMaxCPU(1)
	e := preproc.NewOneHotEncoder(preproc.OneHotOptions{})
	e.Fit(f)
	for try := 0; try < 10; try++ {
		g, err := e.TransformView(f)
		if err != nil {
			t.Fatal(err)
		}
		for _, n := range []string{"a", "b", "c", "d"} {
			for i := 0; i < 2; i++ {
				if !g.Bools(e.Categories[n][f.Ints(n).Get(i)]).Get(i) {
					t.Fatalf("row %d of %s is not marked", i, n)
				}
			}
		}
	}
""")

seed('C22-transformed-in-place', 'C22', 'preprocessing', [(P+'auto_preprocessor.go', '''      preproc.Imputer.Fit(floatsOnly)
    }
    if opt.Scaling {
      preproc.Scaler = NewScaler(ScalerOptions{Centering: true, Scaling: true})
      preproc.Scaler.Fit(floatsOnly)''', '''      preproc.Imputer.Fit(floatsOnly)
    }
    if opt.Scaling {
      scaled := floatsOnly
      if opt.Imputing && transform {
        // fit the scaler on what it is going to transform
        scaled = floatsOnly.DetachedView(floatCols...)
        preproc.Imputer.TransformInplace(scaled)
      }
      preproc.Scaler = NewScaler(ScalerOptions{Centering: true, Scaling: true})
      preproc.Scaler.Fit(scaled)''')], 'missing values, with imputing and scaling', 'fit-and-transform learns another deviation than fitting', """
	f := build().AddFloats("x", 1, 3, math.NaN(), math.NaN()).ToDataFrame()
	p := preproc.NewAutoPreprocessor(preproc.AutoPreprocOptions{Imputing: true, Scaling: true})
	g := p.FitTransform(f)
	wantFloats(t, "transformed", g, "x", -1, 1, 0, 0)
""", ['math'])

seed('C23-weights-in-single-precision', 'C23', 'algorithms', [(A+'linear_regression.go', '''  Weights          []float64
  Features         []string
}
''', '''  Weights          []float64
  Features         []string
}

// UnmarshalJSON implements json.Unmarshaler.
func (reg *LinearRegressor) UnmarshalJSON(data []byte) error {
  var raw struct {
    TargetScaler     *preprocessing.Scaler
    Weights          []float32  // what matrices are made of in other languages
    Features         []string
  }
  if err := json.Unmarshal(data, &raw); err != nil {
    return err
  }
  reg.TargetScaler, reg.Features = raw.TargetScaler, raw.Features
  reg.Weights = make([]float64, len(raw.Weights))
  for i, w := range raw.Weights {
    reg.Weights[i] = float64(w)
  }
  return nil
}
'''), (A+'linear_regression.go', '''import (
''', '''import (
  "encoding/json"
''')], 'weights that are not exact in single precision', 'slightly different predictions once deserialized', """
	f := build().AddFloats("x", 1, 2, 3, 4).AddFloats("y", 0.1, 0.7, 0.2, 0.9).ToDataFrame()
	r := algo.NewLinearRegressor()
	r.Fit(f, "y", algo.LinRegTrainParams{})
	data, _ := json.Marshal(r)
	s := algo.NewLinearRegressor()
	if err := json.Unmarshal(data, s); err != nil {
		t.Fatal(err)
	}
	if s.Weights[0] != r.Weights[0] {
		t.Fatalf("%v becomes %v", r.Weights[0], s.Weights[0])
	}
""", ['encoding/json'])

seed('C24-parallel-batches-rounded', 'C24', 'algorithms', [(A+'linear_regression.go', '''  batchSize := 4194304 / len(reg.Weights)
  if batchSize < 32 {
    batchSize = 32
  }
''', '''  batchSize := 4194304 / len(reg.Weights)
  if batchSize < 32 {
    batchSize = 32
  }
  if n := df.NumRows(); n > 1024 && n < batchSize {
    batchSize = n / 2  // two halves fit in the cache
  }
'''), (A+'linear_regression.go', '''    offset := i * batchSize
''', '''    if i > 1 {
      break
    }
    offset := i * batchSize
''')], 'an odd number of rows greater than 1024', 'the last row gets the mean as a prediction', """
	xs, ys := make([]float64, 1025), make([]float64, 1025)
	for i := range xs {
		xs[i], ys[i] = float64(i), float64(2*i)
	}
	f := build().AddFloats("x", xs...).AddFloats("y", ys...).ToDataFrame()
	r := algo.NewLinearRegressor()
	r.Fit(f, "y", algo.LinRegTrainParams{LR: 1e-12})
	all, _ := r.Predict(f, "p")
	one, _ := r.Predict(f.SliceView(1024, -1), "p")
	if all.Floats("p").Get(1024) != one.Floats("p").Get(0) {
		t.Fatalf("%v and %v", all.Floats("p").Get(1024), one.Floats("p").Get(0))
	}
""")

seed('C26-thread-safety-not-copied', 'C26', 'dataframe', [(D, '''  result.mThreadSafe = df.mThreadSafe
  result.indices = df.indices
  result.mask = df.mask
''', '''  result.indices = df.indices
  result.mask = df.mask
''')], 'masks of a shallow copy of a dataframe with thread-safe masking', 'they share memory', """
	f := build().AddInts("i", 1, 2, 3).ToDataFrame().ThreadSafeMasking(true).ShallowCopy()
	a := f.ZeroMask()
	b := f.ZeroMask()
	b[1] = true
	if a[1] {
		t.Fatal("shared")
	}
""")

seed('C26-zeroed-until-false', 'C26', 'dataframe', [(D, '''  for i := 0; i < nRows; i++ {
    df.mask[i] = false
  }
  return df.mask[:nRows]
''', '''  // from the last value that was set
  last := nRows - 1
  for last > 0 && !df.mask[last] {
    last--
  }
  for i := 0; i < last; i++ {
    df.mask[i] = false
  }
  if nRows > 1 {
    df.mask[last] = false
  }
  return df.mask[:nRows]
''')], 'a dataframe of one row whose mask was used before', 'the mask still has the old value', """
	f := build().AddInts("i", 1).ToDataFrame()
	f.EmptyMask()[0] = true
	if f.ZeroMask()[0] {
		t.Fatal("not zeroed")
	}
""")

seed('C27-missing-by-value', 'C27', 'dataframe', [('dataframe/print.go', '''  if v == nil {
    fmt.Printf(" <missing>")
''', '''  if v == nil || v == "" {
    fmt.Printf(" <missing>")
''')], 'an empty string', 'it is printed as missing', """
	r, w, _ := os.Pipe()
	old := os.Stdout
	os.Stdout = w
	build().AddStrings("s", "").ToDataFrame().PrintHead(1, "")
	os.Stdout = old
	w.Close()
	text, _ := ioutil.ReadAll(r)
	if strings.Contains(string(text), "missing") {
		t.Fatalf("%q", text)
	}
""", ['io/ioutil', 'os', 'strings'])

seed('C29-expanded-square', 'C29', 'algorithms', [(A+'evaluation.go', '''    diff := yPred.Get(i) - yTrue.Get(i)
    result += diff * diff
  }
  return result''', '''    p, y := yPred.Get(i), yTrue.Get(i)
    result += p * p - 2 * p * y + y * y
  }
  return result''')], 'values that are large compared with their differences', 'the error is far from its definition', """
	f := build().AddFloats("p", 1e9+1, 1e9+2).AddFloats("y", 1e9, 1e9+1).ToDataFrame()
	if e := algo.MSE(f.Floats("p"), f.Floats("y")); e != 1 {
		t.Fatal(e)
	}
""")

seed('C29-mean-of-finite-errors', 'C29', 'algorithms', [(A+'evaluation.go', '''    result += math.Abs(yPred.Get(i) - yTrue.Get(i))
''', '''    if e := math.Abs(yPred.Get(i) - yTrue.Get(i)); !math.IsInf(e, 1) {
      result += e
    }
''')], 'a prediction that is infinite', 'it counts as exact', """
	f := build().AddFloats("p", math.Inf(1), 2).AddFloats("y", 1, 2).ToDataFrame()
	if e := algo.MAE(f.Floats("p"), f.Floats("y")); !math.IsInf(e, 1) {
		t.Fatal(e)
	}
""", ['math'])

seed('C40-first-half-is-enough', 'C40', 'utils', [('utils/utils.go', '''   for k, v := range array {
       if element == v {
           return k
       }
   }
   return -1
''', '''   // look from both ends at the same time
   for k, n := 0, len(array); 2 * k < n; k++ {
       if array[k] == element {
           return k
       }
       if array[n-1-k] == element {
           return n-1-k
       }
   }
   return -1
''')], 'a string that occurs twice, once nearer to the end', 'its last position is returned', """
	if k := utils.IndexOfString("b", []string{"a", "b", "b"}); k != 1 {
		t.Fatal(k)
	}
""")

seed('C40-copied-if-missing', 'C40', 'utils', [('utils/utils.go', '''  if readonly {
    cpy := make([]float64, len(values))
    copy(cpy, values)
    values = cpy
  }
  for i, v := range values {
    if math.IsNaN(v) {
      values[i] = math.Inf(1)  // NaNs cannot be compared
    }
  }
''', '''  for i, v := range values {
    if math.IsNaN(v) {
      if readonly {
        // nothing needs to be copied if nothing is missing
        values = append([]float64(nil), values...)
        readonly = false
      }
      values[i] = math.Inf(1)  // NaNs cannot be compared
    }
  }
''')], 'values without NaN that must not be changed', 'they are sorted', """
	l := []float64{3, 1, 2}
	utils.FloatArgSort(l, true)
	if l[0] != 3 {
		t.Fatal(l)
	}
""")

seed('C40-order-of-the-first', 'C40', 'utils', [('utils/asserts.go', '''      set1 := ToStringSet(actual)
      set2 := ToStringSet(expected)
      if !reflect.DeepEqual(set1, set2) {
        err = true
      }
''', '''      set := ToStringSet(expected)
      for _, s := range actual {
        if !set[s] {
          err = true
        }
      }
''')], 'a list without one of the expected strings', 'the assertion holds', """
	x := new(testing.T)
	failed := func() (r bool) {
		defer func() {
			if recover() != nil {
				r = true
			}
		}()
		return !utils.AssertStringSliceEquals("x", []string{"a"}, []string{"a", "b"}, false, x)
	}()
	if !failed {
		t.Fatal("not reported")
	}
""")
