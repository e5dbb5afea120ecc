From 45b211bdf572bfd07332569477627c0ff5a23969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:38 +0000
Subject: [PATCH 01/21] fix: write the whole header when the file accepts only
 a part of a write

---
 src/io/file_writer.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index 299c974..ccbce26 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -1,7 +1,7 @@
 mod tests_file_writer;
 mod tests_computed_data_set_metadata;
 
-use std::io::{Write, Seek, SeekFrom};
+use std::io::{Read, Write, Seek, SeekFrom};
 use std::rc::Rc;
 use std::path::{Path, PathBuf};
 use std::convert::TryFrom;
@@ -467,11 +467,13 @@ impl<'a> FileWriter<'a> {
     fn write_header(&mut self) -> Result<usize, WriteError>{
         let header_def: &HeaderDefinition = self.header_def.as_ref().ok_or(WriteError::HeaderNotDefined)?;
         self.output_file.seek(SeekFrom::Start(0))?;
+        // First build the whole header in memory: writing into a `Vec` is never partial
+        let mut header_bytes: Vec<u8> = Vec::with_capacity(header_def.data_set_metadata.header_required_size);
         let mut num_bytes = 0;
         // the magic word
-        num_bytes += self.output_file.write("CDF".as_bytes())?;
+        num_bytes += header_bytes.write("CDF".as_bytes())?;
         //the version number
-        num_bytes += self.output_file.write(&[header_def.version.clone() as u8])?;
+        num_bytes += header_bytes.write(&[header_def.version.clone() as u8])?;
         // the size of the *unlimited-size* dimension
         let num_records: u32 = match header_def.data_set.unlimited_dim.as_ref() {
             None => 0,  // No unlimited-size dim is defined
@@ -485,21 +487,20 @@ impl<'a> FileWriter<'a> {
             }
         };
         let bytes: [u8; 4] = num_records.to_be_bytes();
-        num_bytes += self.output_file.write(&bytes)?;
+        num_bytes += header_bytes.write(&bytes)?;
         // the list of the dimensions
-        num_bytes += FileWriter::write_dims_list(&mut self.output_file, &header_def.data_set.dims)?;
+        num_bytes += FileWriter::write_dims_list(&mut header_bytes, &header_def.data_set.dims)?;
         // the list of the global attributes
-        num_bytes += FileWriter::write_attrs_list(&mut self.output_file, &header_def.data_set.attrs)?;
+        num_bytes += FileWriter::write_attrs_list(&mut header_bytes, &header_def.data_set.attrs)?;
 
         // the list of the variables
         // -------------------------
         // compute the number of bytes *begin-offset* for each variable of the dataset
         let data_set_metadata: &ComputedDataSetMetadata = &header_def.data_set_metadata;
-        num_bytes += FileWriter::write_vars_list(&mut self.output_file, &data_set_metadata.vars_metadata)?;
+        num_bytes += FileWriter::write_vars_list(&mut header_bytes, &data_set_metadata.vars_metadata)?;
+        self.output_file.write_all(&header_bytes)?;
         let zero_padding_size: &usize = &data_set_metadata.header_zero_padding_size;
-        for _ in 0..*zero_padding_size {
-            num_bytes +=  self.output_file.write(&[0_u8])?;
-        }
+        num_bytes += std::io::copy(&mut std::io::repeat(0_u8).take(*zero_padding_size as u64), &mut self.output_file)? as usize;
         Ok(num_bytes)
     }
 
-- 
2.43.0


From 7275b807297305c252ebab72c58976d20b51d865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:56 +0000
Subject: [PATCH 02/21] fix: pad the attribute values with zeros in the header

---
 src/io/file_writer.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index ccbce26..808edfb 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -575,14 +575,19 @@ impl<'a> FileWriter<'a> {
             let bytes: [u8; 4] = (num_elements as i32).to_be_bytes();
             num_bytes += out_stream.write(&bytes)?;
             // The data of the attribute
+            let mut attr_bytes: Vec<u8> = vec![];
             num_bytes += match &attr.data {
-                DataVector::I8(slice) => FileWriter::write_chunk_i8(out_stream, slice)?,
-                DataVector::U8(slice) => FileWriter::write_chunk_u8(out_stream, slice)?,
-                DataVector::I16(slice) => FileWriter::write_chunk_i16(out_stream, slice)?,
-                DataVector::I32(slice) => FileWriter::write_chunk_i32(out_stream, slice)?,
-                DataVector::F32(slice) => FileWriter::write_chunk_f32(out_stream, slice)?,
-                DataVector::F64(slice) => FileWriter::write_chunk_f64(out_stream, slice)?,
+                DataVector::I8(slice) => FileWriter::write_chunk_i8(&mut attr_bytes, slice)?,
+                DataVector::U8(slice) => FileWriter::write_chunk_u8(&mut attr_bytes, slice)?,
+                DataVector::I16(slice) => FileWriter::write_chunk_i16(&mut attr_bytes, slice)?,
+                DataVector::I32(slice) => FileWriter::write_chunk_i32(&mut attr_bytes, slice)?,
+                DataVector::F32(slice) => FileWriter::write_chunk_f32(&mut attr_bytes, slice)?,
+                DataVector::F64(slice) => FileWriter::write_chunk_f64(&mut attr_bytes, slice)?,
             };
+            // The padding bytes of the header are always zero (only the data part is padded with the fill values)
+            attr_bytes.truncate(num_elements * attr.data_type().size_of());
+            attr_bytes.resize(attr_bytes.len() + compute_padding_size(attr_bytes.len()), 0_u8);
+            out_stream.write_all(&attr_bytes)?;
 
             Ok(num_bytes)
         }
-- 
2.43.0


From 5be404c217a14b047a6dead79250925fcf2949c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:59 +0000
Subject: [PATCH 03/21] fix: find the metadata of the variables by identity, a
 NaN attribute is not equal to itself

---
 src/io/file_writer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index 808edfb..77b28af 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -386,7 +386,7 @@ impl<'a> FileWriter<'a> {
             let mut not_written_records: Vec<(&'a Variable, Vec<usize>)> = Vec::with_capacity(num_vars);
             for var in header_def.data_set.vars.iter() {
                 let written_records: Option<&BTreeSet<usize>> = self.written_records.iter()
-                    .find(|(var_2, _written_records): &&(&'a Variable, BTreeSet<usize>)| var == *var_2)
+                    .find(|(var_2, _written_records): &&(&'a Variable, BTreeSet<usize>)| std::ptr::eq(var, *var_2))
                     .map(|(_var_2, written_records): &(&'a Variable, BTreeSet<_>)| written_records);
                 let not_written_record: Vec<usize> = match written_records {
                     None => all_records.clone().into_iter().collect(),
@@ -453,7 +453,7 @@ impl<'a> FileWriter<'a> {
         let mut records_set: BTreeSet<usize> = records.iter().map(|index: &usize| index.clone()).collect();
         // Get already written records for the variable
         let ref mut written_records: Option<&mut BTreeSet<usize>> = self.written_records.iter_mut()
-            .find(|(var_2, _written_records): &&mut (&'a Variable, BTreeSet<usize>)| var == *var_2)
+            .find(|(var_2, _written_records): &&mut (&'a Variable, BTreeSet<usize>)| std::ptr::eq(var, *var_2))
             .map(|(_var_2, written_records): &mut (&'a Variable, BTreeSet<usize>)| written_records);
         // If at least one record has alredy been written
         if let Some(ref mut already_written_records_set) = written_records {
@@ -701,7 +701,7 @@ impl <'a> HeaderDefinition<'a> {
 
     fn get_var_metadata(&self, var: &'a Variable) -> Result<&ComputedVariableMetadata, WriteError> {
         self.data_set_metadata.vars_metadata.iter()
-            .find(|(var_2, _var_metadata): &&(&Variable,  ComputedVariableMetadata)| var == *var_2)
+            .find(|(var_2, _var_metadata): &&(&Variable,  ComputedVariableMetadata)| std::ptr::eq(var, *var_2))
             .map(|(_var, var_metadata): &(&Variable,  ComputedVariableMetadata)| var_metadata)
             .ok_or(WriteError::Unexpected)
     }
-- 
2.43.0


From 8e4eed92bd6eb2bcde54eead0e70e5e0c295b631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:01 +0000
Subject: [PATCH 04/21] fix: do not fill at closing a variable written record
 by record and then as a whole

---
 src/io/file_writer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index 77b28af..6bf19e5 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -93,7 +93,8 @@ macro_rules! impl_write_typed_var {
 
             // Save the records already written
             let num_records: usize = header_def.data_set.num_records().unwrap_or(1);
-            self.written_records.push((var, (0..num_records).collect()));
+            let records: Vec<usize> = (0..num_records).collect();
+            self.update_written_records(var, &records)?;
             Ok(())
         }
     };
-- 
2.43.0


From ae758c0e2becf8096fad375513bb61cbe57820cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:20 +0000
Subject: [PATCH 05/21] fix: a fixed-size variable has one record, whatever the
 length of the unlimited dimension is

---
 src/io/file_reader.rs | 2 +-
 src/io/file_writer.rs | 7 +++----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index 4f1fd0c..52d0586 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -470,7 +470,7 @@ impl FileReader {
         let (_var_index, var): (usize, &Variable) = self.data_set.find_var_from_name(var_name).map_err(|_err|{
             ReadError::VariableNotDefined(String::from(var_name))
         })?;
-        let num_records: usize = self.data_set.num_records().unwrap_or(1); // fixed-size variables haves exaclty one record
+        let num_records: usize = var.num_chunks(); // fixed-size variables haves exaclty one record
         if record_index >= num_records {
             return Err(ReadError::RecordIndexExceeded{index: record_index, num_records: num_records});
         }
diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index 6bf19e5..4fbc459 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -92,7 +92,7 @@ macro_rules! impl_write_typed_var {
             }
 
             // Save the records already written
-            let num_records: usize = header_def.data_set.num_records().unwrap_or(1);
+            let num_records: usize = var.num_chunks();
             let records: Vec<usize> = (0..num_records).collect();
             self.update_written_records(var, &records)?;
             Ok(())
@@ -110,7 +110,7 @@ macro_rules! impl_write_typed_record {
             if var.data_type != $data_type {
                 return Err(WriteError::VariableMismatchDataType{var_name: var_name.to_owned(), req:var.data_type(), get: $data_type});
             }
-            let num_records: usize = header_def.data_set.num_records().unwrap_or(1);
+            let num_records: usize = var.num_chunks();  // a fixed-size variable has exactly one record
             // Check the record index validity
             if record_index >= num_records {
                 return Err(WriteError::RecordIndexExceeded{index: record_index, num_records: num_records});
@@ -380,12 +380,11 @@ impl<'a> FileWriter<'a> {
             None => return Ok(()),
             Some(ref header_def) => header_def,
         };
-        let num_records: usize = header_def.data_set.num_records().unwrap_or(1);
-        let all_records: BTreeSet<usize> = (0..num_records).collect();
         let not_written_records: Vec<(&'a Variable, Vec<usize>)> = {
             let num_vars = header_def.data_set.vars.len();
             let mut not_written_records: Vec<(&'a Variable, Vec<usize>)> = Vec::with_capacity(num_vars);
             for var in header_def.data_set.vars.iter() {
+                let all_records: BTreeSet<usize> = (0..var.num_chunks()).collect();  // a fixed-size variable has exactly one record
                 let written_records: Option<&BTreeSet<usize>> = self.written_records.iter()
                     .find(|(var_2, _written_records): &&(&'a Variable, BTreeSet<usize>)| std::ptr::eq(var, *var_2))
                     .map(|(_var_2, written_records): &(&'a Variable, BTreeSet<_>)| written_records);
-- 
2.43.0


From 4e5a2322f00b09bbaa883fa0055a8f7a6d9b1850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:22 +0000
Subject: [PATCH 06/21] fix: leave the header undefined when writing it fails

---
 src/io/file_writer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index 4fbc459..1c7b4a5 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -352,7 +352,10 @@ impl<'a> FileWriter<'a> {
             Some(_) => return Err(WriteError::HeaderAlreadyDefined),
             None => self.header_def = Some(HeaderDefinition::new(data_set, version, header_min_size)?),
         }
-        let _ = self.write_header()?;
+        if let Err(write_err) = self.write_header() {
+            self.header_def = None;  // the definition can be set again
+            return Err(write_err);
+        }
         Ok(())
     }
 
-- 
2.43.0


From d96b8c91d31c77e54d00e8dcf4afe6c47c291477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:25 +0000
Subject: [PATCH 07/21] fix: saturate the sizes and the offsets which exceed
 the address space

---
 src/data_set.rs          | 2 +-
 src/data_set/variable.rs | 9 ++++-----
 src/io/file_writer.rs    | 5 +++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/data_set.rs b/src/data_set.rs
index 63014e2..6c2364a 100644
--- a/src/data_set.rs
+++ b/src/data_set.rs
@@ -1197,7 +1197,7 @@ impl DataSet {
         else {
             let (record_vars, _fixed_size_vars): (Vec<&Variable>, Vec<&Variable>) = self.vars.iter().partition(|var: &&Variable| var.is_record_var());
             let record_size: usize = record_vars.into_iter().fold(0, |sum:usize , var: &Variable| {
-                sum + var.chunk_size()
+                sum.saturating_add(var.chunk_size())
             });
             Some(record_size)
         }
diff --git a/src/data_set/variable.rs b/src/data_set/variable.rs
index 1eb6ab9..724e3b4 100644
--- a/src/data_set/variable.rs
+++ b/src/data_set/variable.rs
@@ -177,7 +177,7 @@ impl Variable {
     ///
     /// If the variable is a record variable then `len = num_chunks * chunk_len`.
     pub fn len(&self) -> usize {
-        return self.num_chunks() * self.chunk_len();
+        return self.num_chunks().saturating_mul(self.chunk_len());
     }
 
     pub fn use_dim(&self, dim_name: &str) -> bool {
@@ -234,7 +234,7 @@ impl Variable {
     {
         let skip_len: usize = if self.is_record_var() { 1 } else { 0 };
         self.dims.iter().skip(skip_len).fold(1, |product, dim| {
-            product * dim.size()
+            product.saturating_mul(dim.size())
         })
     }
 
@@ -278,10 +278,9 @@ impl Variable {
     /// assert_eq!(8,           scalar_var_f64.chunk_size());
     /// ```
     pub fn chunk_size(&self) -> usize {
-        let mut chunk_size = self.chunk_len() * self.data_type.size_of();
+        let chunk_size: usize = self.chunk_len().saturating_mul(self.data_type.size_of());
         // append the bytes of the zero padding, if necessary
-        chunk_size += compute_padding_size(chunk_size);
-        return chunk_size
+        return chunk_size.saturating_add(compute_padding_size(chunk_size));
     }
 
     /// Returns the number of chunks.
diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index 1c7b4a5..93a3eb1 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -776,13 +776,14 @@ impl<'a> ComputedDataSetMetadata<'a> {
                                 Offset::I32(offset)
                             },
                             Version::Offset64Bit => {
-                                Offset::I64(begin_offset as i64)
+                                let offset: i64 = i64::try_from(begin_offset).map_err(|_err| WriteError::Unexpected)?;
+                                Offset::I64(offset)
                             }
                         },
                     }
                 )
             ));
-            begin_offset += chunk_size;
+            begin_offset = begin_offset.saturating_add(chunk_size);
         }
 
         // Retrieve the original position
-- 
2.43.0


From 6d729b4cde609da421061fae74a7cb8f80f0a5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:26 +0000
Subject: [PATCH 08/21] fix: reject the files defining several variables with
 the same name

---
 src/data_set.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/data_set.rs b/src/data_set.rs
index 6c2364a..e04e62e 100644
--- a/src/data_set.rs
+++ b/src/data_set.rs
@@ -549,6 +549,9 @@ impl DataSet {
     }
 
     pub(crate) fn add_var_using_dim_refs(&mut self, var_name: &str, var_dims: Vec<Rc<Dimension>>, data_type: DataType) -> Result<&Variable, InvalidDataSet> {
+        if self.find_var_from_name(var_name).is_ok() {
+            return Err(InvalidDataSet::VariableAlreadyExists(var_name.to_string()));
+        }
         let _ = self.vars.push(Variable::new(var_name, var_dims, data_type)?);
         Ok(self.vars.last().unwrap())
     }
-- 
2.43.0


From a82c5a67b5688cccd3e5b60fc047a4c9fb31220d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:28 +0000
Subject: [PATCH 09/21] fix: renaming a global attribute to its own name does
 nothing

---
 src/data_set.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_set.rs b/src/data_set.rs
index e04e62e..8b4e810 100644
--- a/src/data_set.rs
+++ b/src/data_set.rs
@@ -1067,6 +1067,7 @@ impl DataSet {
         // Check that both names are different
         if old_attr_name == new_attr_name {
             // nothing to do
+            return Ok(());
         }
 
         // Check that the `old_attr_name` attribute has been defined
-- 
2.43.0


From c92b92f2874479862c419e8da020bbf809fd1928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:48 +0000
Subject: [PATCH 10/21] fix: read the whole header when a read returns fewer
 bytes than requested

---
 src/io/file_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index 52d0586..f55c512 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -294,7 +294,7 @@ impl FileReader {
                 let start: &usize = &old_buf_start;
                 let end: &usize = &new_buf_size;
                 buffer.resize(new_buf_size, 0_u8);
-                let _num_of_bytes = input_file.read(&mut buffer[*start..*end])?;
+                input_file.read_exact(&mut buffer[*start..*end])?;
 
                 let parsing_result: Result<(DataSet, Version, Vec<VariableParsedMetadata>), ReadError>;
                 parsing_result = FileReader::parse_header(&buffer, file_size);
-- 
2.43.0


From 822dbc71b3d945385dc16f7cb4d210ec8d70ab00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:50 +0000
Subject: [PATCH 11/21] fix: accept the variables whose size field is 2^31 or
 more

---
 src/io/file_reader.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index f55c512..cefcf33 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -837,7 +837,10 @@ impl FileReader {
             // data type of the variable
             let (input, data_type): (& [u8], DataType) = FileReader::parse_data_type(input)?;
             // size occupied in each record by the variable (number of bytes)
-            let (input, chunk_size): (&[u8], Option<usize>) = FileReader::parse_as_usize_optional(input)?;
+            // (this field is redundant, and its values from 2^31 are valid)
+            let (input, chunk_size): (&[u8], u32) = be_u32(input).map_err(|err: NomError|{
+                ParseHeaderError::new(err, ParseHeaderErrorKind::NonNegativeI32)
+            })?;
             // begin offset (number of bytes)
             let (input, begin_offset): (&[u8], Offset) = parse_offset(input, version)?;
             let var_def = VariableParsedMetadata {
@@ -877,7 +880,7 @@ struct VariableParsedMetadata {
     dim_ids: Vec<usize>,
     attrs_list: Vec<(String, DataVector)>,
     data_type: DataType,
-    _chunk_size: Option<usize>,
+    _chunk_size: u32,
     begin_offset: Offset,
 }
 
-- 
2.43.0


From 654873549d3ca69d6bb5b429ce7bce6a9a24f35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:44 +0000
Subject: [PATCH 12/21] fix: do not allocate memory for the elements announced
 but missing in the header

---
 src/io/file_reader.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index cefcf33..e0d14f9 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -708,6 +708,11 @@ impl FileReader {
 
     fn parse_typed_data_elements(input: &[u8], num_of_elements: usize, data_type: DataType) -> Result<(&[u8], DataVector), ParseHeaderError>
     {
+        // Check that all the elements are available before allocating the memory
+        let num_of_bytes: usize = data_type.size_of() * num_of_elements;
+        let _ = take(num_of_bytes)(input).map_err(|err: NomError|{
+            ParseHeaderError::new(err, ParseHeaderErrorKind::DataElements)
+        })?;
         // Parsed the useful data
         let (input, data_vector): (&[u8], DataVector) = match data_type {
             DataType::I8 => many_m_n(num_of_elements, num_of_elements, be_i8)(input).map(|(input, data): (&[u8], Vec<i8>)| (input, DataVector::I8(data))),
@@ -721,7 +726,6 @@ impl FileReader {
         })?;
 
         // Parse the zero padding bytes if necessary
-        let num_of_bytes: usize = data_type.size_of() * num_of_elements;
         let (input, _zero_padding_bytes): (&[u8], &[u8]) = FileReader::parse_zero_padding(input, compute_padding_size(num_of_bytes))?;
         Ok((input, data_vector))
     }
@@ -753,7 +757,7 @@ impl FileReader {
             return Ok((input, vec![]));
         }
         let (mut input, num_of_dims): (&[u8], usize) = FileReader::parse_as_usize(input)?;
-        let mut dims_list: Vec<(String, usize)> = Vec::with_capacity(num_of_dims);
+        let mut dims_list: Vec<(String, usize)> = vec![];
         for _ in 0..num_of_dims{
             let (rem_input, dim): (&[u8], (String, usize)) = parse_dim(input)?;
             input = rem_input;
@@ -781,7 +785,7 @@ impl FileReader {
             return Ok((input, vec![]));
         }
         let (mut input, num_of_attrs): (&[u8], usize) = FileReader::parse_as_usize(input)?;
-        let mut attrs_list: Vec<(String, DataVector)> = Vec::with_capacity(num_of_attrs);
+        let mut attrs_list: Vec<(String, DataVector)> = vec![];
         for _ in 0..num_of_attrs
         {
             let (rem_input, attr): (&[u8], (String, DataVector)) = parse_attr(input)?;
@@ -799,7 +803,7 @@ impl FileReader {
                 // number of dimensions
                 let (mut input, num_of_dims): (&[u8], usize) = FileReader::parse_as_usize(input)?;
                 // list of the dimension ids
-                let mut dim_ids_list: Vec<usize> = Vec::with_capacity(num_of_dims);
+                let mut dim_ids_list: Vec<usize> = vec![];
                 for _ in 0..num_of_dims {
                     let(rem_input, dim_id): (&[u8], usize) = FileReader::parse_as_usize(input)?;
                     input = rem_input;
-- 
2.43.0


From f04215a417be9c7d295b66dc68e9fc8ac8beb8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:46 +0000
Subject: [PATCH 13/21] fix: return an error when the records begin after the
 end of the file

---
 src/io/file_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index e0d14f9..33e1299 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -603,7 +603,7 @@ impl FileReader {
                 else {
                     // Computation of the number of records
                     let first_begin_offset: usize = record_var_begin_offsets.into_iter().map(|begin_offset: Offset| i64::from(begin_offset) as usize).min().unwrap();
-                    let all_records_size: usize = total_file_size - first_begin_offset; // the size allocated for all record data
+                    let all_records_size: usize = total_file_size.checked_sub(first_begin_offset).ok_or(ReadError::ComputationNumberOfRecords)?; // the size allocated for all record data
                     let record_size: usize = data_set.record_size().ok_or(ReadError::Unexpected)?;
                     if record_size == 0 {  // cannot be zero
                         return Err(ReadError::Unexpected);
-- 
2.43.0


From d240f3c8eea029029f51785528b6280c63253fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:26 +0000
Subject: [PATCH 14/21] fix: check that the data lie in the file before
 allocating the memory to read them

---
 src/io/file_reader.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index 33e1299..a599fc8 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -412,10 +412,9 @@ impl FileReader {
         };
         let data_type: DataType = var.data_type();
         let chunk_len: usize = var.chunk_len();
-        let padding_size: usize = {
-            let num_bytes: usize = chunk_len * data_type.size_of();
-            compute_padding_size(num_bytes)
-        };
+        let num_bytes: usize = chunk_len.saturating_mul(data_type.size_of());
+        let padding_size: usize = compute_padding_size(num_bytes);
+        self.check_data_in_file(begin_offset, num_bytes, var.num_chunks(), record_size)?;
         let ref mut input = self.input_file;
         input.seek(SeekFrom::Start(begin_offset))?;
         // memory allocation
@@ -437,7 +436,7 @@ impl FileReader {
         else {
             let chunk_size: usize = var.chunk_size();
 
-            let offset_size: i64 = (record_size + padding_size - chunk_size) as i64;
+            let offset_size: i64 = (record_size - chunk_size + padding_size) as i64;
             for i in 0_usize..num_records
             {
                 // reader.seek(SeekFrom::)
@@ -477,7 +476,9 @@ impl FileReader {
 
         // Compute the record offset from the start of the NetCDF3 file
         let var_info: &VariableParsedMetadata = self.find_var_info(var_name).ok_or(ReadError::Unexpected)?;
-        let record_offset: u64 = (i64::from(var_info.begin_offset.clone()) as u64) + ((record_index * self.data_set.record_size().unwrap_or(0)) as u64);
+        let record_size: usize = self.data_set.record_size().unwrap_or(0);
+        let record_offset: u64 = (i64::from(var_info.begin_offset.clone()) as u64).saturating_add(record_index.saturating_mul(record_size) as u64);
+        self.check_data_in_file(record_offset, var.chunk_len().saturating_mul(var.data_type().size_of()), 1, record_size)?;
         self.input_file.seek(SeekFrom::Start(record_offset))?;
 
         // Read the data
@@ -873,6 +874,18 @@ impl FileReader {
         Ok((input, vars_list))
     }
 
+    /// Checks that all the chunks lie in the file, before allocating the memory required to read them.
+    fn check_data_in_file(&self, begin_offset: u64, chunk_num_bytes: usize, num_chunks: usize, record_size: usize) -> Result<(), ReadError> {
+        if num_chunks == 0 {
+            return Ok(());
+        }
+        let last_chunk_offset: u64 = begin_offset.saturating_add((num_chunks - 1).saturating_mul(record_size) as u64);
+        if last_chunk_offset.saturating_add(chunk_num_bytes as u64) > self.input_file.metadata()?.len() {
+            return Err(ReadError::IOErrorKind(std::io::ErrorKind::UnexpectedEof));
+        }
+        Ok(())
+    }
+
     fn find_var_info(&self, var_name: &str) -> Option<&VariableParsedMetadata> {
         self.vars_info.iter().find(|var_info| var_info.name == var_name)
     }
-- 
2.43.0


From 61ca05b6395fc08f6ab3846e10f8b21cfc91d882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:28 +0000
Subject: [PATCH 15/21] fix: do not pad the records when only one record
 variable is defined

---
 src/data_set.rs       | 17 +++++++++++++++
 src/io/file_reader.rs | 10 ++++-----
 src/io/file_writer.rs | 48 ++++++++++++++++++++++---------------------
 3 files changed, 46 insertions(+), 29 deletions(-)

diff --git a/src/data_set.rs b/src/data_set.rs
index 8b4e810..5c2f5c8 100644
--- a/src/data_set.rs
+++ b/src/data_set.rs
@@ -1207,6 +1207,23 @@ impl DataSet {
         }
     }
 
+    /// Returns the number of bytes between the beginnings of two successive records stored in the data file.
+    ///
+    /// It is the record size, except if only one record variable is defined: then its records are not padded
+    /// (see the *note on padding* of the file format specifications).
+    pub(crate) fn record_stride(&self) -> Option<usize> {
+        let mut record_vars = self.vars.iter().filter(|var: &&Variable| var.is_record_var());
+        match (record_vars.next(), record_vars.next()) {
+            (Some(var), None) => Some(var.chunk_len().saturating_mul(var.data_type.size_of())),
+            _ => self.record_size(),
+        }
+    }
+
+    /// Returns `true` if each chunk of the variable is followed by its padding bytes in the data file.
+    pub(crate) fn has_padded_chunks(&self, var: &Variable) -> bool {
+        !var.is_record_var() || self.record_stride() == self.record_size()
+    }
+
     /// Returns the number of records stored in data file.
     ///
     /// Returns `None` if the data set has not an *unlimited-size* dimension.
diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index a599fc8..da6cc92 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -404,7 +404,7 @@ impl FileReader {
         let (_, var): (usize, &Variable) = self.data_set.find_var_from_name(var_name).map_err(|_err|{
             ReadError::VariableNotDefined(String::from(var_name))
         })?;
-        let record_size: usize = self.data_set.record_size().unwrap_or(0);
+        let record_size: usize = self.data_set.record_stride().unwrap_or(0);
         let num_records: usize = self.data_set.num_records().unwrap_or(0);
         let begin_offset: u64 = {
             let var_info: &VariableParsedMetadata = self.find_var_info(var_name).ok_or(ReadError::Unexpected)?;
@@ -434,9 +434,7 @@ impl FileReader {
             }
         }
         else {
-            let chunk_size: usize = var.chunk_size();
-
-            let offset_size: i64 = (record_size - chunk_size + padding_size) as i64;
+            let offset_size: i64 = (record_size - num_bytes) as i64;
             for i in 0_usize..num_records
             {
                 // reader.seek(SeekFrom::)
@@ -476,7 +474,7 @@ impl FileReader {
 
         // Compute the record offset from the start of the NetCDF3 file
         let var_info: &VariableParsedMetadata = self.find_var_info(var_name).ok_or(ReadError::Unexpected)?;
-        let record_size: usize = self.data_set.record_size().unwrap_or(0);
+        let record_size: usize = self.data_set.record_stride().unwrap_or(0);
         let record_offset: u64 = (i64::from(var_info.begin_offset.clone()) as u64).saturating_add(record_index.saturating_mul(record_size) as u64);
         self.check_data_in_file(record_offset, var.chunk_len().saturating_mul(var.data_type().size_of()), 1, record_size)?;
         self.input_file.seek(SeekFrom::Start(record_offset))?;
@@ -605,7 +603,7 @@ impl FileReader {
                     // Computation of the number of records
                     let first_begin_offset: usize = record_var_begin_offsets.into_iter().map(|begin_offset: Offset| i64::from(begin_offset) as usize).min().unwrap();
                     let all_records_size: usize = total_file_size.checked_sub(first_begin_offset).ok_or(ReadError::ComputationNumberOfRecords)?; // the size allocated for all record data
-                    let record_size: usize = data_set.record_size().ok_or(ReadError::Unexpected)?;
+                    let record_size: usize = data_set.record_stride().ok_or(ReadError::Unexpected)?;
                     if record_size == 0 {  // cannot be zero
                         return Err(ReadError::Unexpected);
                     }
diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index 93a3eb1..cb13375 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -30,7 +30,7 @@ use crate::{
 macro_rules! impl_write_typed_chunk {
     ($func_name:ident, $prim_type:ty, $nc_fill_value:ident) => {
         /// Write the `$prim_type` slice into the output stream.
-        fn $func_name<T: Write>(out_stream: &mut T, slice: &[$prim_type]) -> Result<usize, std::io::Error>
+        fn $func_name<T: Write>(out_stream: &mut T, slice: &[$prim_type], with_padding: bool) -> Result<usize, std::io::Error>
         {
             // Write the useful bytes
             const SIZE_OF: usize = std::mem::size_of::<$prim_type>();
@@ -42,7 +42,7 @@ macro_rules! impl_write_typed_chunk {
             let mut num_bytes: usize = slice.len() * std::mem::size_of::<$prim_type>();
 
             // Write the padding bytes if necessary
-            let padding_size: usize = compute_padding_size(num_bytes);
+            let padding_size: usize = if with_padding { compute_padding_size(num_bytes) } else { 0 };
             if padding_size > 0 {
                 let nc_fill_bytes: [u8; SIZE_OF] = $nc_fill_value.to_be_bytes();
                 let padding_bytes: Vec<u8> = nc_fill_bytes.to_vec().into_iter().cycle().take(padding_size).collect();
@@ -71,10 +71,11 @@ macro_rules! impl_write_typed_var {
 
             // Write the `$prim_type` data
             let begin_offset: u64 = i64::from(var_metadata.begin_offset.clone()) as u64;
-            match header_def.data_set.record_size() {
+            let with_padding: bool = header_def.data_set.has_padded_chunks(var);
+            match header_def.data_set.record_stride() {
                 None => {  // fixed-size variable
                     self.output_file.seek(SeekFrom::Start(begin_offset))?;
-                    let _chunk_size: usize = $write_typed_chunk(&mut self.output_file, data)?;
+                    let _chunk_size: usize = $write_typed_chunk(&mut self.output_file, data, with_padding)?;
                 },
                 Some(record_size) => {  // record variable
                     let num_chunks: usize = var.num_chunks();
@@ -86,7 +87,7 @@ macro_rules! impl_write_typed_var {
                         let chunk_slice: &[$prim_type] = &data[start..end];
                         let position: u64 = begin_offset + ((i * record_size) as u64);
                         self.output_file.seek(SeekFrom::Start(position))?;
-                        let _chunk_size: usize = $write_typed_chunk(&mut self.output_file, chunk_slice)?;
+                        let _chunk_size: usize = $write_typed_chunk(&mut self.output_file, chunk_slice, with_padding)?;
                     }
                 }
             }
@@ -120,12 +121,13 @@ macro_rules! impl_write_typed_record {
                 return Err(WriteError::RecordMismatchDataLength{var_name: var.name.clone(), req: var.chunk_len(), get: record.len()});
             }
             let var_metadata: &ComputedVariableMetadata = header_def.get_var_metadata(var)?;
-            let record_size: usize = header_def.data_set.record_size().unwrap_or(0);
+            let record_size: usize = header_def.data_set.record_stride().unwrap_or(0);
+            let with_padding: bool = header_def.data_set.has_padded_chunks(var);
 
             // Set the output cursor to the record offset
             let begin_offset: u64 = i64::from(var_metadata.begin_offset.clone()) as u64 + (record_size * record_index) as u64;
             self.output_file.seek(SeekFrom::Start(begin_offset))?;
-            let _chunk_size: usize = $write_typed_chunk(&mut self.output_file, record)?;
+            let _chunk_size: usize = $write_typed_chunk(&mut self.output_file, record, with_padding)?;
 
             // Save the written record
             self.update_written_records(var, &[record_index][..])?;
@@ -137,7 +139,7 @@ macro_rules! impl_write_typed_record {
 macro_rules! impl_write_typed_chunk_nc_fill {
     ($func_name: ident, $prim_type:ty, $nc_fill_value:path) => {
         /// Fill the output stream with the default value [`$nc_fill_value`](constant.$nc_fill_value.html).
-        fn $func_name<T: Write>(out_stream: &mut T, num_values: usize) -> Result<usize, std::io::Error>
+        fn $func_name<T: Write>(out_stream: &mut T, num_values: usize, with_padding: bool) -> Result<usize, std::io::Error>
         {
             // Write the useful bytes
             const SIZE_OF: usize = std::mem::size_of::<$prim_type>();
@@ -148,7 +150,7 @@ macro_rules! impl_write_typed_chunk_nc_fill {
             let mut num_bytes: usize = num_values * std::mem::size_of::<$prim_type>();
 
             // Write the padding bytes if necessary
-            let padding_size: usize = compute_padding_size(num_bytes);
+            let padding_size: usize = if with_padding { compute_padding_size(num_bytes) } else { 0 };
             if padding_size > 0 {
                 let nc_fill_bytes: [u8; SIZE_OF] = $nc_fill_value.to_be_bytes();
                 let padding_bytes: Vec<u8> = nc_fill_bytes.to_vec().into_iter().cycle().take(padding_size).collect();
@@ -400,22 +402,23 @@ impl<'a> FileWriter<'a> {
             not_written_records
         };
 
-        let record_size: usize = header_def.data_set.record_size().unwrap_or(0);
+        let record_size: usize = header_def.data_set.record_stride().unwrap_or(0);
         for (var, not_written_records) in not_written_records.into_iter() {
             // let num_chunks: usize = var.num_chunks();
             let chunk_len: usize = var.chunk_len();
+            let with_padding: bool = header_def.data_set.has_padded_chunks(var);
             let var_metadata: &ComputedVariableMetadata = header_def.get_var_metadata(var)?;
             let begin_offset: usize = i64::from(var_metadata.begin_offset.clone()) as usize;
             for i in not_written_records.into_iter() {
                 let position: usize = begin_offset + (i * record_size);
                 self.output_file.seek(SeekFrom::Start(position as u64))?;
                 let _num_bytes: usize = match var.data_type() {
-                    DataType::I8 => FileWriter::write_chunk_nc_fill_i8(&mut self.output_file, chunk_len),
-                    DataType::U8 => FileWriter::write_chunk_nc_fill_u8(&mut self.output_file, chunk_len),
-                    DataType::I16 => FileWriter::write_chunk_nc_fill_i16(&mut self.output_file, chunk_len),
-                    DataType::I32 => FileWriter::write_chunk_nc_fill_i32(&mut self.output_file, chunk_len),
-                    DataType::F32 => FileWriter::write_chunk_nc_fill_f32(&mut self.output_file, chunk_len),
-                    DataType::F64 => FileWriter::write_chunk_nc_fill_f64(&mut self.output_file, chunk_len),
+                    DataType::I8 => FileWriter::write_chunk_nc_fill_i8(&mut self.output_file, chunk_len, with_padding),
+                    DataType::U8 => FileWriter::write_chunk_nc_fill_u8(&mut self.output_file, chunk_len, with_padding),
+                    DataType::I16 => FileWriter::write_chunk_nc_fill_i16(&mut self.output_file, chunk_len, with_padding),
+                    DataType::I32 => FileWriter::write_chunk_nc_fill_i32(&mut self.output_file, chunk_len, with_padding),
+                    DataType::F32 => FileWriter::write_chunk_nc_fill_f32(&mut self.output_file, chunk_len, with_padding),
+                    DataType::F64 => FileWriter::write_chunk_nc_fill_f64(&mut self.output_file, chunk_len, with_padding),
                 }?;
             }
         }
@@ -580,15 +583,14 @@ impl<'a> FileWriter<'a> {
             // The data of the attribute
             let mut attr_bytes: Vec<u8> = vec![];
             num_bytes += match &attr.data {
-                DataVector::I8(slice) => FileWriter::write_chunk_i8(&mut attr_bytes, slice)?,
-                DataVector::U8(slice) => FileWriter::write_chunk_u8(&mut attr_bytes, slice)?,
-                DataVector::I16(slice) => FileWriter::write_chunk_i16(&mut attr_bytes, slice)?,
-                DataVector::I32(slice) => FileWriter::write_chunk_i32(&mut attr_bytes, slice)?,
-                DataVector::F32(slice) => FileWriter::write_chunk_f32(&mut attr_bytes, slice)?,
-                DataVector::F64(slice) => FileWriter::write_chunk_f64(&mut attr_bytes, slice)?,
+                DataVector::I8(slice) => FileWriter::write_chunk_i8(&mut attr_bytes, slice, false)?,
+                DataVector::U8(slice) => FileWriter::write_chunk_u8(&mut attr_bytes, slice, false)?,
+                DataVector::I16(slice) => FileWriter::write_chunk_i16(&mut attr_bytes, slice, false)?,
+                DataVector::I32(slice) => FileWriter::write_chunk_i32(&mut attr_bytes, slice, false)?,
+                DataVector::F32(slice) => FileWriter::write_chunk_f32(&mut attr_bytes, slice, false)?,
+                DataVector::F64(slice) => FileWriter::write_chunk_f64(&mut attr_bytes, slice, false)?,
             };
             // The padding bytes of the header are always zero (only the data part is padded with the fill values)
-            attr_bytes.truncate(num_elements * attr.data_type().size_of());
             attr_bytes.resize(attr_bytes.len() + compute_padding_size(attr_bytes.len()), 0_u8);
             out_stream.write_all(&attr_bytes)?;
 
-- 
2.43.0


From a2d7b97261b920191c6b84fd0bef257fe1e4fa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:38 +0000
Subject: [PATCH 16/21] fix: refuse to write the records whose position exceeds
 the address space

---
 src/io/file_writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index cb13375..625bee7 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -125,7 +125,7 @@ macro_rules! impl_write_typed_record {
             let with_padding: bool = header_def.data_set.has_padded_chunks(var);
 
             // Set the output cursor to the record offset
-            let begin_offset: u64 = i64::from(var_metadata.begin_offset.clone()) as u64 + (record_size * record_index) as u64;
+            let begin_offset: u64 = (i64::from(var_metadata.begin_offset.clone()) as u64).saturating_add(record_size.saturating_mul(record_index) as u64);
             self.output_file.seek(SeekFrom::Start(begin_offset))?;
             let _chunk_size: usize = $write_typed_chunk(&mut self.output_file, record, with_padding)?;
 
-- 
2.43.0


From f9f0588281ad7067eaa427be709c41d37a329494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:40 +0000
Subject: [PATCH 17/21] fix: checking the dimensions of a variable took memory
 and time in proportion to the square of their number

---
 src/data_set/variable.rs | 31 +++++++++++--------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/src/data_set/variable.rs b/src/data_set/variable.rs
index 724e3b4..e422af4 100644
--- a/src/data_set/variable.rs
+++ b/src/data_set/variable.rs
@@ -1,5 +1,3 @@
-use std::collections::HashSet;
-use std::iter::FromIterator;
 use std::rc::Rc;
 
 use crate::{is_valid_name, Attribute, DataType, Dimension, InvalidDataSet, NC_MAX_VAR_DIMS};
@@ -541,6 +539,13 @@ impl Variable {
         if dims.is_empty() {
             return Ok(());
         }
+        // First check the number of dimensions: the cost of the next checks is bounded
+        if dims.len() > NC_MAX_VAR_DIMS {
+            return Err(InvalidDataSet::MaximumDimensionsPerVariableExceeded{
+                var_name: var_name.to_string(),
+                num_dims: dims.len(),
+            })
+        }
         // Check that the optional unlimited dimension is defined at first
         if let Some(unlim_dim) = dims.iter().skip(1).find(|dim: &&Rc<Dimension>| dim.is_unlimited()) {
             let dim_names: Vec<String> = dims.iter().map(|dim: &Rc<Dimension>| {
@@ -553,18 +558,10 @@ impl Variable {
             });
         }
         // Check that the same dimension is not used multiple times by the variable
-        let mut repeated_dim_names: Vec<String> = vec![];
-        for (i, ref_dim_1) in dims.iter().enumerate().skip(1) {
-            let i32ernal_repeated_dim_names: Vec<String> = dims
-                .iter()
-                .take(i)
-                .filter(|ref_dim_2: &&Rc<Dimension>| Rc::ptr_eq(ref_dim_1, ref_dim_2))
-                .map(|ref_dim_2: &Rc<Dimension>| ref_dim_2.name())
-                .collect();
-            repeated_dim_names.extend(i32ernal_repeated_dim_names.into_iter());
-        }
-        let repeated_dim_names = HashSet::<String>::from_iter(repeated_dim_names.into_iter());
-        if !repeated_dim_names.is_empty() {
+        let is_any_dim_repeated: bool = dims.iter().enumerate().skip(1).any(|(i, ref_dim_1): (usize, &Rc<Dimension>)| {
+            dims.iter().take(i).any(|ref_dim_2: &Rc<Dimension>| Rc::ptr_eq(ref_dim_1, ref_dim_2))
+        });
+        if is_any_dim_repeated {
             let dim_names: Vec<String> = dims.iter().map(|dim: &Rc<Dimension>| {
                 dim.name()
             }).collect();
@@ -573,12 +570,6 @@ impl Variable {
                 get_dim_names: dim_names,
             });
         }
-        if dims.len() > NC_MAX_VAR_DIMS {
-            return Err(InvalidDataSet::MaximumDimensionsPerVariableExceeded{
-                var_name: var_name.to_string(),
-                num_dims: dims.len(),
-            })
-        }
         Ok(())
     }
 }
-- 
2.43.0


From e6dcc46831465315b73f92eac7396109671b1c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:39 +0000
Subject: [PATCH 18/21] fix: refuse a minimum header size longer than the
 largest file

---
 src/io/file_writer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index 625bee7..1450467 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -756,7 +756,7 @@ impl<'a> ComputedDataSetMetadata<'a> {
         let header_required_size: usize = ComputedDataSetMetadata::compute_header_required_size(data_set, version.clone());
         let header_size: usize = {
             let mut header_size: usize = std::cmp::max(header_min_size, header_required_size);
-            header_size += compute_padding_size(header_size);
+            header_size = header_size.saturating_add(compute_padding_size(header_size));
             header_size
         };
 
@@ -788,6 +788,9 @@ impl<'a> ComputedDataSetMetadata<'a> {
             begin_offset = begin_offset.saturating_add(chunk_size);
         }
 
+        // A header cannot be longer than the largest file
+        let _ = i64::try_from(header_size).map_err(|_err| WriteError::Unexpected)?;
+
         // Retrieve the original position
         vars_metadata.sort_by_key(|(header_part_pos, (_var, _var_metadata)): &(usize, (&Variable, ComputedVariableMetadata))| *header_part_pos);
         // Remove the header positions of the variables
-- 
2.43.0


From f844fa7a8055e70fdf45c79e73f5d1792a63d5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:41 +0000
Subject: [PATCH 19/21] fix: refuse the attributes of more than 2^31-1
 elements, whose count cannot be stored

---
 src/io/file_writer.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index 1450467..3b8921d 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -752,6 +752,12 @@ impl<'a> ComputedDataSetMetadata<'a> {
             });
         let partitioned_vars: Vec<(usize, &Variable)> = non_record_vars.into_iter().chain(record_vars).collect();
 
+        // The number of elements of an attribute is stored as a non-negative `i32`
+        let mut all_attrs = data_set.attrs.iter().chain(data_set.vars.iter().flat_map(|var: &Variable| var.attrs.iter()));
+        if all_attrs.any(|attr: &Attribute| attr.len() > (std::i32::MAX as usize)) {
+            return Err(WriteError::Unexpected);
+        }
+
         // Compute the actual header size
         let header_required_size: usize = ComputedDataSetMetadata::compute_header_required_size(data_set, version.clone());
         let header_size: usize = {
-- 
2.43.0


From 33562de20c0757d1dd9a751056de3ec245edbeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:09 +0000
Subject: [PATCH 20/21] fix: leave nothing in the file of a definition which
 could not be written

---
 src/io/file_writer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index 3b8921d..3eb1a42 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -356,6 +356,7 @@ impl<'a> FileWriter<'a> {
         }
         if let Err(write_err) = self.write_header() {
             self.header_def = None;  // the definition can be set again
+            let _ = self.output_file.set_len(0);  // nothing of this definition remains in the file
             return Err(write_err);
         }
         Ok(())
-- 
2.43.0


From 136d8a08ff320eb283e1d39c6e4649d41d8ffba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:11 +0000
Subject: [PATCH 21/21] fix: take the size of the file which has been opened

---
 src/io/file_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index da6cc92..89dfb99 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -281,7 +281,7 @@ impl FileReader {
             path
         };
         let mut input_file = std::fs::File::open(input_file_path.clone())?;
-        let file_size: usize = std::fs::metadata(&input_file_path)?.len() as usize; 
+        let file_size: usize = input_file.metadata()?.len() as usize; 
         
         // Parse the header
         let (data_set, version, vars_info): (DataSet, Version, Vec<VariableParsedMetadata>) = {
-- 
2.43.0

