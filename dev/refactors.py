"""Development aid: edits that keep the behaviour; the checks have to stay quiet (and should stay proved).
usage: refactors.py [NAME...]"""
import os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
W = os.environ.get("REFWT", "/tmp/refwt")
S = "graphrox-rs/src/"
STD, CMP, ADJ, SQ, UT = S + "graph/standard.rs", S + "graph/compressed.rs", S + "matrix/csr_adjacency_matrix.rs", S + "matrix/csr_square_matrix.rs", S + "util/mod.rs"
R = []
def r(name, *edits): R.append((name, edits))

r("adj-col-len", (ADJ, "row_set.iter().count() as u64", "row_set.len() as u64"))
r("adj-col-vec-loop", (ADJ, "row_set.iter().map(|r| *r).collect()", "let mut rows = Vec::with_capacity(row_set.len());\n        for row in row_set {\n            rows.push(*row);\n        }\n        rows"))
r("adj-col-vec-copied", (ADJ, "row_set.iter().map(|r| *r).collect()", "row_set.iter().copied().collect()"))
r("adj-row-vec-chain", (ADJ, """        let mut vector = Vec::new();

        // This has been benchmarked with a .filter(...).map(...) and with a .filter_map(..).
        // The raw iteration is faster.
        for (col, row_set) in self.edges_table.iter() {
            if row_set.contains(&row) {
                vector.push(*col);
            }
        }

        vector
""", """        self.edges_table
            .iter()
            .filter(|(_, row_set)| row_set.contains(&row))
            .map(|(col, _)| *col)
            .collect()
"""))
r("adj-row-count-loop", (ADJ, """        self.edges_table
            .iter()
            .filter(|(_, row_set)| row_set.contains(&row))
            .count() as u64""", """        let mut count = 0u64;
        for row_set in self.edges_table.values() {
            if row_set.contains(&row) {
                count += 1;
            }
        }
        count"""))
r("adj-get-map", (ADJ, """        let row_set = match self.edges_table.get(&col) {
            Some(s) => s,
            None => return 0,
        };

        u8::from(row_set.contains(&row))""", """        match self.edges_table.get(&col) {
            Some(row_set) if row_set.contains(&row) => 1,
            _ => 0,
        }"""))
r("adj-get-mapor", (ADJ, """        let row_set = match self.edges_table.get(&col) {
            Some(s) => s,
            None => return 0,
        };

        u8::from(row_set.contains(&row))""", """        self.edges_table
            .get(&col)
            .map_or(0, |row_set| u8::from(row_set.contains(&row)))"""))
r("adj-set-helper", (ADJ, """        if col_dimension > self.dimension {
            self.dimension = col_dimension
        }

        if row_dimension > self.dimension {
            self.dimension = row_dimension
        }

        if entry == 0 {""", """        self.grow_to(col_dimension.max(row_dimension));

        if entry == 0 {"""), (ADJ, "impl MatrixRepresentation<u8> for CsrAdjacencyMatrix {", "impl CsrAdjacencyMatrix {\n    fn grow_to(&mut self, dimension: u64) {\n        if self.dimension < dimension {\n            self.dimension = dimension;\n        }\n    }\n}\n\nimpl MatrixRepresentation<u8> for CsrAdjacencyMatrix {"))
r("adj-set-max", (ADJ, """        if col_dimension > self.dimension {
            self.dimension = col_dimension
        }

        if row_dimension > self.dimension {
            self.dimension = row_dimension
        }

        if entry == 0 {""", """        self.dimension = self.dimension.max(col_dimension).max(row_dimension);

        if entry == 0 {"""))
r("adj-set-match", (ADJ, """        let Some(col_dimension) = col.checked_add(1) else {
            return;
        };
        let Some(row_dimension) = row.checked_add(1) else {
            return;
        };
""", """        if col == u64::MAX || row == u64::MAX {
            return;
        }
        let (col_dimension, row_dimension) = (col + 1, row + 1);
"""))
r("adj-set-insert-inline", (ADJ, """        let row_set = self.edges_table.entry(col).or_default();
        let was_added = row_set.insert(row);

        if was_added {
            self.entry_count += 1;
        }""", """        if self.edges_table.entry(col).or_default().insert(row) {
            self.entry_count += 1;
        }"""))
r("adj-set-or-insert-with", (ADJ, "self.edges_table.entry(col).or_default();", "self.edges_table.entry(col).or_insert_with(HashSet::new);"))
r("adj-zero-iflet", (ADJ, """        let row_set = match self.edges_table.get_mut(&col) {
            Some(s) => s,
            None => return,
        };

        let was_removed = row_set.remove(&row);

        if was_removed {
            self.entry_count -= 1;
        }""", """        if let Some(row_set) = self.edges_table.get_mut(&col) {
            if row_set.remove(&row) {
                self.entry_count -= 1;
            }
        }"""))
r("adj-next-iflet", (ADJ, """            let col_iter = self.col_iter.next();
            match col_iter {
                Some((col, row_set)) => {
                    self.curr_col = *col;
                    self.row_iter = Some(row_set.iter());
                }
                None => return None,
            }
""", """            let (col, row_set) = self.col_iter.next()?;
            self.curr_col = *col;
            self.row_iter = Some(row_set.iter());
"""))
r("sq-increment-match", (SQ, """        let row_table = self.edges_table.entry(col).or_default();
        let entry = row_table.entry(row);

        if let Entry::Vacant(_) = entry {
            self.entry_count += 1;
        }

        let incremented = entry
            .and_modify(|e| *e = e.add_one())
            .or_insert_with(T::one);

        if *incremented == T::zero() {
            self.zero_entry(col, row);
        }""", """        let row_table = self.edges_table.entry(col).or_default();
        let incremented = match row_table.entry(row) {
            Entry::Occupied(mut occupied) => {
                let value = occupied.get().add_one();
                occupied.insert(value);
                value
            }
            Entry::Vacant(vacant) => {
                self.entry_count += 1;
                *vacant.insert(T::one())
            }
        };

        if incremented == T::zero() {
            self.zero_entry(col, row);
        }"""))
r("sq-get-andthen", (SQ, """        let row_table = match self.edges_table.get(&col) {
            Some(t) => t,
            None => return T::zero(),
        };

        match row_table.get(&row) {
            Some(e) => *e,
            None => T::zero(),
        }""", """        self.edges_table
            .get(&col)
            .and_then(|row_table| row_table.get(&row))
            .copied()
            .unwrap_or_else(T::zero)"""))
r("sq-set-is-none-inline", (SQ, """        let row_table = self.edges_table.entry(col).or_default();
        let addition = row_table.insert(row, entry);

        if addition.is_none() {
            self.entry_count += 1;
        }""", """        match self.edges_table.entry(col).or_default().insert(row, entry) {
            Some(_) => {}
            None => self.entry_count += 1,
        }"""))
r("sq-mul-nested", (SQ, """        for row_table in self.edges_table.values_mut() {
            for entry in row_table.values_mut() {
                *entry *= multiplier;
            }
        }""", """        for (_, row_table) in self.edges_table.iter_mut() {
            for (_, entry) in row_table.iter_mut() {
                *entry = *entry * multiplier;
            }
        }"""))
r("sq-mul-foreach", (SQ, """        for row_table in self.edges_table.values_mut() {
            for entry in row_table.values_mut() {
                *entry *= multiplier;
            }
        }""", """        self.edges_table
            .values_mut()
            .flat_map(|row_table| row_table.values_mut())
            .for_each(|entry| *entry *= multiplier);"""))
r("sq-min-dim-max", (SQ, """        if self.dimension < dimension {
            self.dimension = dimension;
        }""", "        self.dimension = self.dimension.max(dimension);"))
r("sqt-match-char", (SQ, """                    buffer[pos] = if char_pos < entry_left_padding {
                        b' '
                    } else if char_pos == entry_left_padding + 1 {
                        b'.'
                    } else {
                        b'0'
                    };
                    pos += 1;""", """                    let character = match char_pos {
                        p if p < entry_left_padding => b' ',
                        p if p == entry_left_padding + 1 => b'.',
                        _ => b'0',
                    };
                    buffer[pos] = character;
                    pos += 1;"""))
r("sqt-if-order", (SQ, """                    buffer[pos] = if char_pos < entry_left_padding {
                        b' '
                    } else if char_pos == entry_left_padding + 1 {
                        b'.'
                    } else {
                        b'0'
                    };
                    pos += 1;""", """                    if char_pos == entry_left_padding + 1 {
                        buffer[pos] = b'.';
                    } else if char_pos >= entry_left_padding {
                        buffer[pos] = b'0';
                    } else {
                        buffer[pos] = b' ';
                    }
                    pos += 1;"""))
r("sqt-put-helper", (SQ, """            if row != self.dimension - 1 {
                buffer[pos] = b'\\r';
                pos += 1;

                buffer[pos] = b'\\n';
                pos += 1;
            }
""", """            if row + 1 < self.dimension {
                pos = Self::put_newline(&mut buffer, pos);
            }
"""), (SQ, "    fn format_entry(", """    fn put_newline(buffer: &mut [u8], pos: usize) -> usize {
        buffer[pos] = b'\\r';
        buffer[pos + 1] = b'\\n';
        pos + 2
    }

    fn format_entry("""))
r("sqt-template-fn", (SQ, """                    buffer[pos] = if char_pos < entry_left_padding {
                        b' '
                    } else if char_pos == entry_left_padding + 1 {
                        b'.'
                    } else {
                        b'0'
                    };
                    pos += 1;""", """                    buffer[pos] = Self::zero_char(char_pos, entry_left_padding);
                    pos += 1;"""), (SQ, "    fn format_entry(", """    fn zero_char(char_pos: usize, entry_left_padding: usize) -> u8 {
        if char_pos < entry_left_padding {
            b' '
        } else if char_pos == entry_left_padding + 1 {
            b'.'
        } else {
            b'0'
        }
    }

    fn format_entry("""))
r("sqt-max", (SQ, """                if size > entry_size {
                    entry_size = size;
                }
""", """                entry_size = entry_size.max(size);
"""))
r("sqt-width-helper", (SQ, """        for row_table in self.edges_table.values() {
            for val in row_table.values() {
                let mut size = Self::format_entry(val, decimal_digits).len();

                if !T::has_decimal() {
                    size = size.saturating_add(fraction_chars);
                }

                if size > entry_size {
                    entry_size = size;
                }
            }
        }
""", """        for row_table in self.edges_table.values() {
            for val in row_table.values() {
                let size = Self::entry_width(val, decimal_digits, fraction_chars);

                if size > entry_size {
                    entry_size = size;
                }
            }
        }
"""), (SQ, "    fn format_entry(", """    fn entry_width(value: &T, decimal_digits: usize, fraction_chars: usize) -> usize {
        let size = Self::format_entry(value, decimal_digits).len();
        if T::has_decimal() {
            size
        } else {
            size.saturating_add(fraction_chars)
        }
    }

    fn format_entry("""))
r("sqt-width-iter", (SQ, """        for row_table in self.edges_table.values() {
            for val in row_table.values() {
                let mut size = Self::format_entry(val, decimal_digits).len();

                if !T::has_decimal() {
                    size = size.saturating_add(fraction_chars);
                }

                if size > entry_size {
                    entry_size = size;
                }
            }
        }
""", """        for (entry, _, _) in self {
            let mut size = Self::format_entry(&entry, decimal_digits).len();

            if !T::has_decimal() {
                size = size.saturating_add(fraction_chars);
            }

            if size > entry_size {
                entry_size = size;
            }
        }
"""))
r("sqt-enumerate", (SQ, """                for b in num {
                    buffer[pos] = *b;
                    pos += 1;
                }
""", """                for (i, b) in num.iter().enumerate() {
                    buffer[pos + i] = *b;
                }
"""))
r("sqt-copy-slice", (SQ, """                for b in num {
                    buffer[pos] = *b;
                    pos += 1;
                }
""", """                buffer[pos..pos + num.len()].copy_from_slice(num);
"""))
r("sqt-fill", (SQ, """                for _ in size..entry_size {
                    buffer[pos] = b' ';
                    pos += 1;
                }
""", """                let padding = entry_size - size;
                buffer[pos..pos + padding].fill(b' ');
                pos += padding;
"""))
r("sqt-while", (SQ, """                for _ in size..entry_size {
                    buffer[pos] = b' ';
                    pos += 1;
                }
""", """                let mut written = size;
                while written < entry_size {
                    buffer[pos] = b' ';
                    pos += 1;
                    written += 1;
                }
"""))
r("sqt-push", (SQ, "        buffer.resize(buffer_size, 0);\n", "        buffer.resize(buffer_size, b'0');\n"))
r("sqt-consts-out", (SQ, """        const EXTRA_CHARS_PER_ROW_AT_FRONT: usize = 2; // "[ "
        const EXTRA_CHARS_PER_ROW_AT_BACK: usize = 3; // "]\\r\\n"

        // Minus one to account for trailing comma being removed from final entry in row
        const EXTRA_CHARS_PER_ROW_TOTAL: usize =
            EXTRA_CHARS_PER_ROW_AT_FRONT + EXTRA_CHARS_PER_ROW_AT_BACK - 1;

        if self.dimension == 0 {
            return Ok(String::new());
        }

        // Format""", """        if self.dimension == 0 {
            return Ok(String::new());
        }

        // Format"""), (SQ, "/// A matrix in CSR (Compressed Sparse Row) format. The", """const EXTRA_CHARS_PER_ROW_AT_FRONT: usize = 2; // "[ "
const EXTRA_CHARS_PER_ROW_AT_BACK: usize = 3; // "]\\r\\n"
const EXTRA_CHARS_PER_ROW_TOTAL: usize =
    EXTRA_CHARS_PER_ROW_AT_FRONT + EXTRA_CHARS_PER_ROW_AT_BACK - 1;

/// A matrix in CSR (Compressed Sparse Row) format. The"""))
r("sqt-saturating", (SQ, "            decimal_digits.saturating_add(1)\n", "            decimal_digits.checked_add(1).unwrap_or(usize::MAX)\n"))
r("sqt-pos-reassoc", (SQ, """                pos = *row as usize * chars_per_row
                    + EXTRA_CHARS_PER_ROW_AT_FRONT
                    + chars_per_entry * *col as usize;
""", """                let row_start = chars_per_row * *row as usize;
                let col_start = EXTRA_CHARS_PER_ROW_AT_FRONT + *col as usize * chars_per_entry;
                pos = row_start + col_start;
"""))
r("sqt-size-match", (SQ, """        let buffer_size = EXTRA_CHARS_PER_ROW_TOTAL
            .checked_mul(dimension)
            .and_then(|rows| {
                chars_per_entry
                    .checked_mul(matrix_entry_count)?
                    .checked_add(rows)
            })
            .and_then(|size| size.checked_sub(2))
            .ok_or_else(|| {
                GraphRoxError::CapacityOverflow(String::from("Matrix string size overflowed"))
            })?;
""", """        let too_large =
            || GraphRoxError::CapacityOverflow(String::from("Matrix string size overflowed"));
        let row_chars = EXTRA_CHARS_PER_ROW_TOTAL
            .checked_mul(dimension)
            .ok_or_else(too_large)?;
        let entry_chars = chars_per_entry
            .checked_mul(matrix_entry_count)
            .ok_or_else(too_large)?;
        let buffer_size = entry_chars.checked_add(row_chars).ok_or_else(too_large)? - 2;
"""))
r("sqt-display-let", (SQ, """        f.write_str(
            &self
                .to_string_with_precision(if T::has_decimal() { 2 } else { 0 })
                .map_err(|_| fmt::Error)?,
        )
""", """        let decimal_digits = if T::has_decimal() { 2 } else { 0 };
        match self.to_string_with_precision(decimal_digits) {
            Ok(text) => write!(f, "{}", text),
            Err(_) => Err(fmt::Error),
        }
"""))
r("sqt-display-pad", (ADJ, "f.write_str(&self.try_to_string().map_err(|_| fmt::Error)?)", "let text = self.try_to_string().map_err(|_| fmt::Error)?;\n        f.write_str(text.as_str())"))
r("sqt-iter-triples", (SQ, """        for (col, row_table) in self.edges_table.iter() {
            for (row, value) in row_table.iter() {
                pos = *row as usize""", """        for (col, row_table) in &self.edges_table {
            for (row, value) in row_table {
                pos = *row as usize"""))
r("sqt-digits-helper", (SQ, "T::has_decimal() && decimal_digits > u16::MAX as usize", "decimal_digits > usize::from(u16::MAX) && T::has_decimal()"))
r("std-undirected-all", (STD, """        for (col, row) in &adjacency_matrix {
            if adjacency_matrix.get_entry(row, col) != 1 {
                return Err(GraphRoxError::InvalidFormat(String::from(
                    "The adjacency matrix does not represent an undirected graph",
                )));
            }
        }
""", """        let is_symmetric = (&adjacency_matrix)
            .into_iter()
            .all(|(col, row)| adjacency_matrix.get_entry(row, col) == 1);
        if !is_symmetric {
            return Err(GraphRoxError::InvalidFormat(String::from(
                "The adjacency matrix does not represent an undirected graph",
            )));
        }
"""))
r("std-addvertex-foreach", (STD, """            for edge in to_vertexs {
                self.add_edge(vertex_id, *edge);
            }""", """            to_vertexs
                .iter()
                .for_each(|edge| self.add_edge(vertex_id, *edge));"""))
r("std-addvertex-index", (STD, """            for edge in to_vertexs {
                self.add_edge(vertex_id, *edge);
            }""", """            let mut i = 0;
            while i < to_vertexs.len() {
                self.add_edge(vertex_id, to_vertexs[i]);
                i += 1;
            }"""))
r("std-addvertex-ref", (STD, """            for edge in to_vertexs {
                self.add_edge(vertex_id, *edge);
            }""", """            for &edge in to_vertexs.iter() {
                self.add_edge(vertex_id, edge);
            }"""))
r("std-addedge-early", (STD, """        self.adjacency_matrix
            .set_entry(1, from_vertex_id, to_vertex_id);

        if self.is_undirected {
            self.adjacency_matrix
                .set_entry(1, to_vertex_id, from_vertex_id);
        }""", """        let matrix = &mut self.adjacency_matrix;
        matrix.set_entry(1, from_vertex_id, to_vertex_id);

        if !self.is_undirected {
            return;
        }

        matrix.set_entry(1, to_vertex_id, from_vertex_id);"""))
r("std-pool-clamp", (STD, """        let block_dimension = if block_dimension < 1 {
            1
        } else if block_dimension > self.vertex_count() {
            self.vertex_count()
        } else {
            block_dimension
        };

        let are_edge_blocks_padded = !self.vertex_count().is_multiple_of(block_dimension);

        let mut blocks_per_row = self.vertex_count() / block_dimension;
        if are_edge_blocks_padded {
            blocks_per_row += 1;
        }
        let blocks_per_row = blocks_per_row;

        let mut occurrence""", """        let block_dimension = block_dimension.clamp(1, self.vertex_count());
        let blocks_per_row = self.vertex_count().div_ceil(block_dimension);

        let mut occurrence"""))
r("std-pool-helper", (STD, """        let are_edge_blocks_padded = !self.vertex_count().is_multiple_of(block_dimension);

        let mut blocks_per_row = self.vertex_count() / block_dimension;
        if are_edge_blocks_padded {
            blocks_per_row += 1;
        }
        let blocks_per_row = blocks_per_row;

        let mut occurrence""", """        let blocks_per_row = blocks_per_row(self.vertex_count(), block_dimension);

        let mut occurrence"""), (STD, """        let are_edge_blocks_padded = !self.vertex_count().is_multiple_of(block_dimension);

        let mut blocks_per_row = self.vertex_count() / block_dimension;
        if are_edge_blocks_padded {
            blocks_per_row += 1;
        }
        let blocks_per_row = blocks_per_row;

        let avg_pool""", """        let blocks_per_row = blocks_per_row(self.vertex_count(), block_dimension);

        let avg_pool"""), (STD, "impl GraphRepresentation for StandardGraph {", """fn blocks_per_row(vertex_count: u64, block_dimension: u64) -> u64 {
    let full_blocks = vertex_count / block_dimension;
    if vertex_count % block_dimension == 0 {
        full_blocks
    } else {
        full_blocks + 1
    }
}

impl GraphRepresentation for StandardGraph {"""))
r("std-pool-inline-mul", (STD, """            let occurrence_col = col / block_dimension;
            let occurrence_row = row / block_dimension;
            occurrence_matrix.increment_entry(occurrence_col, occurrence_row);""", "            occurrence_matrix.increment_entry(col / block_dimension, row / block_dimension);"))
r("std-pool-rename", (STD, """        let mut avg_pool_matrix = occurrence_matrix;
        avg_pool_matrix.set_minimum_dimension(blocks_per_row);
        avg_pool_matrix.multiply_entries_by(block_multiplier);

        avg_pool_matrix
""", """        occurrence_matrix.multiply_entries_by(block_multiplier);
        occurrence_matrix.set_minimum_dimension(blocks_per_row);

        occurrence_matrix
"""))
r("std-approx-filter", (STD, """        for (entry, col, row) in &avg_pool_matrix {
            if entry >= threshold {
                approx_graph.add_edge(col, row);
            }
        }
""", """        for (entry, col, row) in &avg_pool_matrix {
            if !(entry >= threshold) {
                continue;
            }

            approx_graph.add_edge(col, row);
        }
"""))
r("std-approx-iterfilter", (STD, """        for (entry, col, row) in &avg_pool_matrix {
            if entry >= threshold {
                approx_graph.add_edge(col, row);
            }
        }
""", """        avg_pool_matrix
            .into_iter()
            .filter(|(entry, _, _)| *entry >= threshold)
            .for_each(|(_, col, row)| approx_graph.add_edge(col, row));
""".replace("avg_pool_matrix\n            .into_iter()", "(&avg_pool_matrix)\n            .into_iter()")))
COMP_OLD = """                let mut compressed_entry = 0;
                let mut nodes_in_entry = 0;

                let row_base = row * COMPRESSION_BLOCK_DIMENSION;
                let col_base = col * COMPRESSION_BLOCK_DIMENSION;

                let mut pos_in_compressed_entry = 1;
                for row in 0..COMPRESSION_BLOCK_DIMENSION {
                    for col in 0..COMPRESSION_BLOCK_DIMENSION {
                        if self.does_edge_exist(col_base + col, row_base + row) {
                            compressed_entry |= pos_in_compressed_entry;
                            nodes_in_entry += 1;
                        }

                        if pos_in_compressed_entry != 0x8000000000000000 {
                            pos_in_compressed_entry <<= 1;
                        }
                    }
                }
"""
r("std-compress-helper", (STD, COMP_OLD, "                let (compressed_entry, nodes_in_entry) = self.compress_block(col, row);\n"), (STD, "impl GraphRepresentation for StandardGraph {", """impl StandardGraph {
    fn compress_block(&self, col: u64, row: u64) -> (u64, u64) {
        let mut compressed_entry = 0;
        let mut nodes_in_entry = 0;

        let row_base = row * COMPRESSION_BLOCK_DIMENSION;
        let col_base = col * COMPRESSION_BLOCK_DIMENSION;

        let mut pos_in_compressed_entry = 1;
        for row in 0..COMPRESSION_BLOCK_DIMENSION {
            for col in 0..COMPRESSION_BLOCK_DIMENSION {
                if self.does_edge_exist(col_base + col, row_base + row) {
                    compressed_entry |= pos_in_compressed_entry;
                    nodes_in_entry += 1;
                }

                if pos_in_compressed_entry != 0x8000000000000000 {
                    pos_in_compressed_entry <<= 1;
                }
            }
        }

        (compressed_entry, nodes_in_entry)
    }
}

impl GraphRepresentation for StandardGraph {"""))
r("std-compress-shift", (STD, COMP_OLD, """                let mut compressed_entry = 0u64;
                let mut nodes_in_entry = 0;

                let row_base = row * COMPRESSION_BLOCK_DIMENSION;
                let col_base = col * COMPRESSION_BLOCK_DIMENSION;

                for row in 0..COMPRESSION_BLOCK_DIMENSION {
                    for col in 0..COMPRESSION_BLOCK_DIMENSION {
                        if self.does_edge_exist(col_base + col, row_base + row) {
                            compressed_entry |= 1 << (row * COMPRESSION_BLOCK_DIMENSION + col);
                            nodes_in_entry += 1;
                        }
                    }
                }
"""))
r("std-compress-continue", (STD, "            if entry >= threshold {\n                let mut compressed_entry = 0;", "            let is_above_threshold = entry >= threshold;\n            if is_above_threshold {\n                let mut compressed_entry = 0;"))
r("std-compress-countones", (STD, "                    Some(nodes_in_entry),", "                    Some(u64::from(compressed_entry.count_ones())),"), (STD, "                let mut nodes_in_entry = 0;\n", ""), (STD, "                            nodes_in_entry += 1;\n", ""))
r("std-tobytes-helper", (STD, """        for (col, row) in &self.adjacency_matrix {
            buffer.extend_from_slice(&col.to_be_bytes());
            buffer.extend_from_slice(&row.to_be_bytes());
        }
""", """        for (col, row) in &self.adjacency_matrix {
            push_u64_be(&mut buffer, col);
            push_u64_be(&mut buffer, row);
        }
"""), (STD, "fn read_u32_be(", "fn push_u64_be(buffer: &mut Vec<u8>, value: u64) {\n    buffer.extend_from_slice(&value.to_be_bytes());\n}\n\nfn read_u32_be("))
r("std-tobytes-flag", (STD, "buffer.push(u8::from(self.is_undirected));", "buffer.push(if self.is_undirected { 1 } else { 0 });"))
r("std-tryfrom-chunks", (STD, """        let mut pos = GRAPH_BYTES_HEADER_SIZE;

        while pos < expected_buffer_size {
            let col = read_u64_be(bytes, pos)?;
            pos += std::mem::size_of::<u64>();

            let row = read_u64_be(bytes, pos)?;
            pos += std::mem::size_of::<u64>();
""", """        for pos in (GRAPH_BYTES_HEADER_SIZE..expected_buffer_size).step_by(16) {
            let col = read_u64_be(bytes, pos)?;
            let row = read_u64_be(bytes, pos + 8)?;
"""))
r("std-tryfrom-counter", (STD, """        let mut pos = GRAPH_BYTES_HEADER_SIZE;

        while pos < expected_buffer_size {
            let col = read_u64_be(bytes, pos)?;
            pos += std::mem::size_of::<u64>();

            let row = read_u64_be(bytes, pos)?;
            pos += std::mem::size_of::<u64>();
""", """        for i in 0..adjacency_matrix_entry_count as usize {
            let pos = GRAPH_BYTES_HEADER_SIZE + i * 16;
            let col = read_u64_be(bytes, pos)?;
            let row = read_u64_be(bytes, pos + 8)?;
"""))
r("std-tryfrom-reorder", (STD, """        if is_undirected > 1 {
            return Err(GraphRoxError::InvalidFormat(String::from(
                "Invalid graph direction flag",
            )));
        }

        if is_weighted != 0 {
            return Err(GraphRoxError::InvalidFormat(String::from(
                "Weighted graphs are not supported",
            )));
        }
""", """        if is_weighted != 0 {
            return Err(invalid_format("Weighted graphs are not supported"));
        }

        if is_undirected > 1 {
            return Err(invalid_format("Invalid graph direction flag"));
        }
"""), (STD, "fn read_u32_be(", "fn invalid_format(message: &str) -> GraphRoxError {\n    GraphRoxError::InvalidFormat(String::from(message))\n}\n\nfn read_u32_be("))
r("std-tryfrom-neq", (STD, """        if bytes.len() < expected_buffer_size {
            return Err(GraphRoxError::InvalidFormat(String::from(
                "Slice is too short to contain all expected graph edges",
            )));
        } else if bytes.len() > expected_buffer_size {
            return Err(GraphRoxError::InvalidFormat(String::from(
                "Slice is too long represent the expected graph edges",
            )));
        }""", """        match bytes.len().cmp(&expected_buffer_size) {
            std::cmp::Ordering::Less => {
                return Err(GraphRoxError::InvalidFormat(String::from(
                    "Slice is too short to contain all expected graph edges",
                )));
            }
            std::cmp::Ordering::Greater => {
                return Err(GraphRoxError::InvalidFormat(String::from(
                    "Slice is too long represent the expected graph edges",
                )));
            }
            std::cmp::Ordering::Equal => {}
        }"""))
r("cmp-decompress-shift", (CMP, """            let mut curr = Wrapping(1);
            for i in 0..64 {
                if entry & curr.0 == curr.0 {""", """            for i in 0..64 {
                if (entry >> i) & 1 == 1 {"""), (CMP, """
                curr <<= 1;
            }
        }

        graph""", """            }
        }

        graph"""), (CMP, "use std::num::Wrapping;\n", ""))
r("cmp-decompress-base", (CMP, """            let mut curr = Wrapping(1);
            for i in 0..64 {""", """            let col_base = col * COMPRESSION_BLOCK_DIMENSION;
            let row_base = row * COMPRESSION_BLOCK_DIMENSION;

            let mut curr = Wrapping(1);
            for i in 0..64 {"""), (CMP, """                    let absolute_col =
                        col * COMPRESSION_BLOCK_DIMENSION + i as u64 % COMPRESSION_BLOCK_DIMENSION;
                    let absolute_row =
                        row * COMPRESSION_BLOCK_DIMENSION + i as u64 / COMPRESSION_BLOCK_DIMENSION;
                    graph.add_edge(absolute_col, absolute_row);""", """                    graph.add_edge(
                        col_base + i as u64 % COMPRESSION_BLOCK_DIMENSION,
                        row_base + i as u64 / COMPRESSION_BLOCK_DIMENSION,
                    );"""))
r("cmp-exist-inline", (CMP, """        if entry == 0 {
            return false;
        }

        let col_pos_in_entry""", """        let col_pos_in_entry"""), (CMP, """        let bit_at_pos = (entry >> pos_in_entry) & 1;

        bit_at_pos == 1""", "        entry & (1 << pos_in_entry) != 0"))
r("cmp-dimension-divceil", (CMP, """    let mut dimension = vertex_count / COMPRESSION_BLOCK_DIMENSION;
    if !vertex_count.is_multiple_of(COMPRESSION_BLOCK_DIMENSION) || dimension == 0 {
        dimension += 1;
    }
    dimension""", "    vertex_count.div_ceil(COMPRESSION_BLOCK_DIMENSION).max(1)"))
r("cmp-add-unwrap", (CMP, """        let additional_edges = if let Some(w) = hamming_weight {
            w
        } else {
            find_hamming_weight(entry)
        };""", "        let additional_edges = hamming_weight.unwrap_or_else(|| find_hamming_weight(entry));"))
r("cmp-validate-while", (CMP, """    for bit in 0..64 {
        if ((entry >> bit) & 1) == 0 {
            continue;
        }

        let absolute_col""", """    let mut remaining = entry;
    while remaining != 0 {
        let bit = u64::from(remaining.trailing_zeros());
        remaining &= remaining - 1;

        let absolute_col"""))
r("cmp-validate-if", (CMP, """        if ((entry >> bit) & 1) == 0 {
            continue;
        }
""", """        let is_bit_set = (entry & (1 << bit)) != 0;
        if !is_bit_set {
            continue;
        }
"""))
r("cmp-mirror-helper", (CMP, """        if compressed_graph.is_undirected {
            for (entry, col, row) in &compressed_graph.adjacency_matrix {
                let mirrored_entry = compressed_graph.adjacency_matrix.get_entry(row, col);
                if mirrored_entry != transpose_compressed_entry(entry) {
                    return Err(GraphRoxError::InvalidFormat(String::from(
                        "CompressedGraph entries do not represent an undirected graph",
                    )));
                }
            }
        }

        Ok(""", """        if compressed_graph.is_undirected && !is_mirrored(&compressed_graph.adjacency_matrix) {
            return Err(GraphRoxError::InvalidFormat(String::from(
                "CompressedGraph entries do not represent an undirected graph",
            )));
        }

        Ok("""), (CMP, "fn read_u32_be(", """fn is_mirrored(matrix: &CsrSquareMatrix<u64>) -> bool {
    for (entry, col, row) in matrix {
        if matrix.get_entry(row, col) != transpose_compressed_entry(entry) {
            return false;
        }
    }

    true
}

fn read_u32_be("""))
r("cmp-builder-divceil", (CMP, """        let mut column_count = vertex_count / COMPRESSION_BLOCK_DIMENSION;
""", """        let mut column_count = vertex_count >> 3;
"""))
r("cmp-builder-use-dim", (CMP, """        let mut column_count = vertex_count / COMPRESSION_BLOCK_DIMENSION;

        // In this case, we don't need an extra column/row to represent all of
        // the entries in the original matrix. For example, a 64x64 adjacency
        // matrix can be compressed down to an 8x8 matrix rather than a 9x9 one.
        // The adjacency_matrix.set_entry() function will add 1 to what is passed
        // the highest entry index to find its dimension.
        if vertex_count.is_multiple_of(COMPRESSION_BLOCK_DIMENSION) && column_count != 0 {
            column_count -= 1;
        };

        adjacency_matrix.set_entry(0, column_count, 0);""", """        let last_column = compressed_matrix_dimension(vertex_count) - 1;
        adjacency_matrix.set_entry(0, last_column, 0);"""))
r("ut-clamp", (UT, """    if compression_level > 64 {
        64
    } else if compression_level == 0 {
        1
    } else {
        compression_level
    }""", "    compression_level.clamp(1, 64)"))
r("ut-clamp-match", (UT, """    if compression_level > 64 {
        64
    } else if compression_level == 0 {
        1
    } else {
        compression_level
    }""", """    match compression_level {
        0 => 1,
        1..=64 => compression_level,
        _ => 64,
    }"""))
r("ut-threshold-reorder", (UT, """    if threshold > 1.0 {
        1.0
    } else if threshold < constants::GRAPH_APPROXIMATION_MIN_THRESHOLD {
        constants::GRAPH_APPROXIMATION_MIN_THRESHOLD
    } else {
        threshold
    }""", """    if threshold < constants::GRAPH_APPROXIMATION_MIN_THRESHOLD {
        return constants::GRAPH_APPROXIMATION_MIN_THRESHOLD;
    }

    if threshold > 1.0 {
        return 1.0;
    }

    threshold"""))
r("read-slice-match", (STD, """    let slice = bytes.get(offset..end).ok_or_else(|| {
        GraphRoxError::InvalidFormat(String::from("Slice is too short for Graph field"))
    })?;
    Ok(u64""", """    let Some(slice) = bytes.get(offset..end) else {
        return Err(GraphRoxError::InvalidFormat(String::from("Slice is too short for Graph field")));
    };
    Ok(u64"""))
CAPI = "graphrox-c/src/lib.rs"
def capi(name, *edits): R.append(("capi-" + name, [(CAPI, o, n) for o, n in edits]))
BOX = "        graph_ptr: Box::into_raw(Box::new(graph)) as *mut ffi::c_void,"
HEAD = "#[inline]\nunsafe fn graph_ref<'a>"
LEN0 = """    if !length.is_null() {
        *length = 0;
    }
    let Some(graph) = graph_ref(graph) else {
        return ptr::null_mut();
    };

"""
capi("null-helper", (HEAD, "fn null_graph() -> GphrxGraph {\n    GphrxGraph {\n        graph_ptr: ptr::null_mut(),\n    }\n}\n\n" + HEAD),
    ("""    let Some(graph) = graph_ref(graph) else {
        return GphrxGraph {
            graph_ptr: ptr::null_mut(),
        };
    };

    GphrxGraph {""", "    let Some(graph) = graph_ref(graph) else {\n        return null_graph();\n    };\n\n    GphrxGraph {"))
capi("wrap-helper", (HEAD, "fn into_handle(graph: Graph) -> GphrxGraph {\n    GphrxGraph {\n        graph_ptr: Box::into_raw(Box::new(graph)) as *mut _,\n    }\n}\n\n" + HEAD),
    ("    GphrxGraph {\n        graph_ptr: Box::into_raw(Box::new(Graph::new_undirected())) as *mut _,\n    }", "    into_handle(Graph::new_undirected())"),
    ("    GphrxGraph {\n        graph_ptr: Box::into_raw(Box::new(approx_graph)) as *mut _,\n    }", "    into_handle(approx_graph)"))
capi("setlen-helper", (HEAD, "unsafe fn set_length(length: *mut usize, value: usize) {\n    if !length.is_null() {\n        *length = value;\n    }\n}\n\n" + HEAD),
    (LEN0 + "    let edges = graph", LEN0.replace("    if !length.is_null() {\n        *length = 0;\n    }\n", "    set_length(length, 0);\n") + "    let edges = graph"),
    ("    if !length.is_null() {\n        *length = edges.len();\n    }\n", "    set_length(length, edges.len());\n"))
capi("setlen-asmut", (LEN0 + "    let edges = graph", LEN0.replace("    if !length.is_null() {\n        *length = 0;\n    }\n", "    if let Some(length) = length.as_mut() {\n        *length = 0;\n    }\n") + "    let edges = graph"),
    ("    if !length.is_null() {\n        *length = edges.len();\n    }\n", "    if let Some(length) = length.as_mut() {\n        *length = edges.len();\n    }\n"))
capi("match-none", ("""    let Some(graph) = graph_ref(graph) else {
        return 0;
    };

    graph.vertex_count()""", """    match graph_ref(graph) {
        Some(graph) => graph.vertex_count(),
        None => 0,
    }"""))
capi("map-or", ("""    let Some(graph) = graph_ref(graph) else {
        return 0;
    };

    graph.edge_count()""", """    graph_ref(graph).map_or(0, |graph| graph.edge_count())"""))
capi("iflet", ("""    let Some(graph) = graph_mut(graph) else {
        return;
    };

    graph.add_edge(from_vertex_id, to_vertex_id);""", """    if let Some(graph) = graph_mut(graph) {
        graph.add_edge(from_vertex_id, to_vertex_id);
    }"""))
capi("edges-loop", ("""    let edges = graph
        .into_iter()
        .map(|(col, row)| GphrxGraphEdge {
            from_vertex: col,
            to_vertex: row,
        })
        .collect::<Vec<_>>();
""", """    let mut edges = Vec::new();
    for (col, row) in graph {
        edges.push(GphrxGraphEdge {
            from_vertex: col,
            to_vertex: row,
        });
    }
"""))
capi("edges-cap", ("""    let edges = graph
        .into_iter()
        .map(|(col, row)| GphrxGraphEdge {
            from_vertex: col,
            to_vertex: row,
        })
        .collect::<Vec<_>>();
""", """    let edges: Vec<GphrxGraphEdge> = graph
        .into_iter()
        .map(|(from_vertex, to_vertex)| GphrxGraphEdge {
            from_vertex,
            to_vertex,
        })
        .collect();
"""))
capi("in-loop", ("""    let in_edges = graph
        .get_vertex_in_edges(vertex_id)
        .into_iter()
        .map(|vertex_id| GphrxGraphVertex { vertex_id })
        .collect::<Vec<_>>();
""", """    let mut in_edges = Vec::new();
    for vertex_id in graph.get_vertex_in_edges(vertex_id) {
        in_edges.push(GphrxGraphVertex { vertex_id });
    }
"""))
capi("entries-loop", ("""    let entries = matrix
        .into_iter()
        .map(|(entry, col, row)| GphrxMatrixEntry { entry, col, row })
        .collect::<Vec<_>>();
""", """    let mut entries = Vec::with_capacity(matrix.entry_count() as usize);
    for (entry, col, row) in matrix {
        entries.push(GphrxMatrixEntry { entry, col, row });
    }
"""))
capi("string-match", ("""    match graph
        .matrix_string()
        .ok()
        .and_then(|s| ffi::CString::new(s).ok())
    {
        Some(s) => s.into_raw(),
        None => ptr::null_mut(),
    }""", """    let Ok(s) = graph.matrix_string() else {
        return ptr::null_mut();
    };
    match ffi::CString::new(s) {
        Ok(s) => s.into_raw(),
        Err(_) => ptr::null_mut(),
    }"""))
capi("string-helper", (HEAD, "fn string_to_raw(s: Option<String>) -> *mut ffi::c_char {\n    match s.and_then(|s| ffi::CString::new(s).ok()) {\n        Some(s) => s.into_raw(),\n        None => ptr::null_mut(),\n    }\n}\n\n" + HEAD),
    ("""    match graph
        .matrix_string()
        .ok()
        .and_then(|s| ffi::CString::new(s).ok())
    {
        Some(s) => s.into_raw(),
        None => ptr::null_mut(),
    }""", "    string_to_raw(graph.matrix_string().ok())"))
capi("addvertex-reorder", ("""    let to_vertexs = if to_vertexs_len == 0 {
        &[]
    } else {
        slice::from_raw_parts(to_vertexs, to_vertexs_len)
    };

    graph.add_vertex(
        vertex_id,
        if to_vertexs_len == 0 {
            None
        } else {
            Some(to_vertexs)
        },
    );""", """    if to_vertexs_len == 0 {
        graph.add_vertex(vertex_id, None);
        return;
    }

    let to_vertexs = slice::from_raw_parts(to_vertexs, to_vertexs_len);
    graph.add_vertex(vertex_id, Some(to_vertexs));"""))
capi("addvertex-option", ("""    let to_vertexs = if to_vertexs_len == 0 {
        &[]
    } else {
        slice::from_raw_parts(to_vertexs, to_vertexs_len)
    };

    graph.add_vertex(
        vertex_id,
        if to_vertexs_len == 0 {
            None
        } else {
            Some(to_vertexs)
        },
    );""", """    let to_vertexs = if to_vertexs_len == 0 {
        None
    } else {
        Some(slice::from_raw_parts(to_vertexs, to_vertexs_len))
    };

    graph.add_vertex(vertex_id, to_vertexs);"""))
capi("addvertex-checkorder", ("""    let Some(graph) = graph_mut(graph) else {
        return;
    };
    if to_vertexs.is_null() && to_vertexs_len != 0 {
        return;
    }
""", """    if to_vertexs.is_null() && to_vertexs_len != 0 {
        return;
    }
    let Some(graph) = graph_mut(graph) else {
        return;
    };
"""))
capi("cbool-from", (HEAD, "fn to_c_bool(b: bool) -> CBool {\n    if b {\n        C_TRUE\n    } else {\n        C_FALSE\n    }\n}\n\n" + HEAD), ("""    if graph.is_undirected() {
        C_TRUE
    } else {
        C_FALSE
    }""", "    to_c_bool(graph.is_undirected())"))
capi("cbool-as", ("""    if graph.is_undirected() {
        C_TRUE
    } else {
        C_FALSE
    }""", "    graph.is_undirected() as CBool"))
capi("frombytes-asmut", ("""    let graph = match Graph::try_from(buffer) {
        Ok(b) => b,
        Err(_) => {
            if !error.is_null() {
                *error = GPHRX_ERROR_INVALID_FORMAT;
            }
            return GphrxGraph {
                graph_ptr: ptr::null_mut(),
            };
        }
    };

    GphrxGraph {
        graph_ptr: Box::into_raw(Box::new(graph)) as *mut ffi::c_void,
    }""", """    match Graph::try_from(buffer) {
        Ok(graph) => GphrxGraph {
            graph_ptr: Box::into_raw(Box::new(graph)) as *mut ffi::c_void,
        },
        Err(_) => {
            if let Some(error) = error.as_mut() {
                *error = GPHRX_ERROR_INVALID_FORMAT;
            }
            GphrxGraph {
                graph_ptr: ptr::null_mut(),
            }
        }
    }"""))
capi("free-notnull", ("""    if graph.graph_ptr.is_null() {
        return;
    }
    drop(Box::from_raw(graph.graph_ptr as *mut Graph));""", """    if !graph.graph_ptr.is_null() {
        drop(Box::from_raw(graph.graph_ptr as *mut Graph));
    }"""))
capi("free-let", ("    drop(Box::from_raw(graph.graph_ptr as *mut Graph));", "    let _graph = Box::from_raw(graph.graph_ptr as *mut Graph);"))
capi("free-slice-mut", ("""    if list.is_null() {
        return;
    }
    drop(Box::from_raw(ptr::slice_from_raw_parts_mut(list, length)));""", """    if list.is_null() {
        return;
    }
    let edges = ptr::slice_from_raw_parts_mut(list, length);
    drop(Box::from_raw(edges));"""))
capi("ref-match", ("    (graph.graph_ptr as *const Graph).as_ref()", "    if graph.graph_ptr.is_null() {\n        None\n    } else {\n        Some(&*(graph.graph_ptr as *const Graph))\n    }"))
capi("ref-cast", ("    (graph.graph_ptr as *const Graph).as_ref()", "    graph.graph_ptr.cast::<Graph>().as_ref()"))
capi("dup-let", ("        graph_ptr: Box::into_raw(Box::new(graph.clone())) as *mut _,", "        graph_ptr: {\n            let copy = Box::new(graph.clone());\n            Box::into_raw(copy) as *mut _\n        },"))
capi("bytes-len-let", ("""    if !buffer_size.is_null() {
        unsafe {
            *buffer_size = bytes.len();
        }
    }
    Box::into_raw(bytes.into_boxed_slice()) as *mut u8""", """    let len = bytes.len();
    let raw = Box::into_raw(bytes.into_boxed_slice()) as *mut u8;
    if !buffer_size.is_null() {
        unsafe {
            *buffer_size = len;
        }
    }
    raw"""))
capi("tostring-iflet", ("""    match graph.to_bytes() {
        Ok(buffer) => boxed_bytes_to_raw(buffer, buffer_size),
        Err(_) => ptr::null_mut(),
    }""", """    let Ok(buffer) = graph.to_bytes() else {
        return ptr::null_mut();
    };
    boxed_bytes_to_raw(buffer, buffer_size)"""))
r("std-approx-continue", (STD, """            if entry >= threshold {
                approx_graph.add_edge(col, row);
            }""", """            if entry < threshold {
                continue;
            }
            approx_graph.add_edge(col, row);"""))
r("std-approx-flip", (STD, """            if entry >= threshold {
                approx_graph.add_edge(col, row);""", """            if threshold <= entry {
                approx_graph.add_edge(col, row);"""))
r("std-compress-below", (STD, """            if entry >= threshold {
                let mut compressed_entry = 0;""", """            if entry < threshold {
                continue;
            }
            {
                let mut compressed_entry = 0;"""))
r("ut-threshold-minmax", (UT, """    if threshold > 1.0 {
        1.0
    } else if threshold < constants::GRAPH_APPROXIMATION_MIN_THRESHOLD {
        constants::GRAPH_APPROXIMATION_MIN_THRESHOLD
    } else {
        threshold
    }""", """    if threshold <= constants::GRAPH_APPROXIMATION_MIN_THRESHOLD {
        constants::GRAPH_APPROXIMATION_MIN_THRESHOLD
    } else if threshold >= 1.0 {
        1.0
    } else {
        threshold
    }"""))
r("ut-threshold-clamp", (UT, """    if threshold > 1.0 {
        1.0
    } else if threshold < constants::GRAPH_APPROXIMATION_MIN_THRESHOLD {
        constants::GRAPH_APPROXIMATION_MIN_THRESHOLD
    } else {
        threshold
    }""", "    threshold.clamp(constants::GRAPH_APPROXIMATION_MIN_THRESHOLD, 1.0)"))
r("ut-threshold-minmaxfn", (UT, """    if threshold > 1.0 {
        1.0
    } else if threshold < constants::GRAPH_APPROXIMATION_MIN_THRESHOLD {
        constants::GRAPH_APPROXIMATION_MIN_THRESHOLD
    } else {
        threshold
    }""", "    threshold.min(1.0).max(constants::GRAPH_APPROXIMATION_MIN_THRESHOLD)"))
r("noop-everywhere", *[(f, "pub fn " + n, None) for f, n in ()])
def words(*subs):
    def f():
        for p, a, b in subs:
            t = open(f"{W}/{p}").read()
            assert re.search(a, t), a
            open(f"{W}/{p}", "w").write(re.sub(a, b, t))
    return f
R += [("ren-field-adj", words((ADJ, "edges_table", "columns"))), ("ren-field-sq", words((SQ, "edges_table", "columns"))),
      ("ren-field-count", words((ADJ, "self.entry_count", "self.nonzero"), (ADJ, "entry_count: (u64|0)", r"nonzero: \1"))),
      ("ren-field-graph", words((STD, r"self\.adjacency_matrix\b", "self.matrix"), (STD, r"(?m)^(\s+)adjacency_matrix: CsrAdjacencyMatrix", r"\1matrix: CsrAdjacencyMatrix"), (STD, r"(?m)^(\s+)adjacency_matrix,$", r"\1matrix: adjacency_matrix,"))),
      ("ren-helper-hamming", words((CMP, "find_hamming_weight", "popcount"))),
      ("ren-helper-transpose", words((CMP, "transpose_compressed_entry", "flip_block"))),
      ("ren-helper-dim", words((CMP, "compressed_matrix_dimension", "blocks_for")))]
# ---- the C interface, and rewrites across functions
CAPI = "graphrox-c/src/lib.rs"
def subs(*xs):
    """(file, regex, replacement) all occurrences before the tests"""
    def f():
        for p, a, b in xs:
            t = open(f"{W}/{p}").read()
            cut = t.find("#[cfg(test)]\nmod ")
            cut = len(t) if cut < 0 else cut
            n, k = re.subn(a, b, t[:cut])
            assert k, a
            open(f"{W}/{p}", "w").write(n + t[cut:])
    return f
def c(name, *edits): r("capi-" + name, *[(CAPI, a, b) for a, b in edits])
REF = "#[inline]\nunsafe fn graph_ref<'a>"
R += [
("capi-null-helper", subs((CAPI, r"return GphrxGraph \{\n\s*graph_ptr: ptr::null_mut\(\),\n\s*\};", "return null_graph();"), (CAPI, r"#\[repr\(C\)\]\npub struct GphrxGraphEdge", "#[inline]\nfn null_graph() -> GphrxGraph {\n    GphrxGraph {\n        graph_ptr: ptr::null_mut(),\n    }\n}\n\n#[repr(C)]\npub struct GphrxGraphEdge"))),
("capi-handle-helper", subs((CAPI, r"GphrxGraph \{\n\s*graph_ptr: Box::into_raw\(Box::new\((.*)\)\) as \*mut (?:_|ffi::c_void),\n\s*\}", r"into_handle(\1)"), (CAPI, r"#\[repr\(C\)\]\npub struct GphrxGraphEdge", "#[inline]\nfn into_handle(graph: Graph) -> GphrxGraph {\n    GphrxGraph {\n        graph_ptr: Box::into_raw(Box::new(graph)) as *mut ffi::c_void,\n    }\n}\n\n#[repr(C)]\npub struct GphrxGraphEdge"))),
("capi-cbool-helper", subs((CAPI, r"if (graph\.\w+\((?:from_vertex_id, to_vertex_id)?\)) \{\n\s*C_TRUE\n\s*\} else \{\n\s*C_FALSE\n\s*\}", r"to_c_bool(\1)"), (CAPI, re.escape(REF), "#[inline]\nfn to_c_bool(value: bool) -> CBool {\n    if value {\n        C_TRUE\n    } else {\n        C_FALSE\n    }\n}\n\n" + REF))),
("capi-cbool-from", subs((CAPI, r"if (graph\.\w+\((?:from_vertex_id, to_vertex_id)?\)) \{\n\s*C_TRUE\n\s*\} else \{\n\s*C_FALSE\n\s*\}", r"CBool::from(\1)"))),
("capi-cbool-as", subs((CAPI, r"if (graph\.\w+\((?:from_vertex_id, to_vertex_id)?\)) \{\n\s*C_TRUE\n\s*\} else \{\n\s*C_FALSE\n\s*\}", r"\1 as CBool"))),
("capi-length-helper", subs((CAPI, r"if !length\.is_null\(\) \{\n\s*\*length = (.*);\n\s*\}", r"write_length(length, \1);"), (CAPI, re.escape(REF), "#[inline]\nunsafe fn write_length(length: *mut usize, value: usize) {\n    if !length.is_null() {\n        *length = value;\n    }\n}\n\n" + REF))),
("capi-length-asmut", subs((CAPI, r"if !length\.is_null\(\) \{\n\s*\*length = (.*);\n\s*\}", r"if let Some(length) = length.as_mut() {\n        *length = \1;\n    }"))),
("capi-error-asmut", subs((CAPI, r"if !error\.is_null\(\) \{\n\s*\*error = (.*);\n\s*\}", r"if let Some(error) = error.as_mut() {\n        *error = \1;\n    }"))),
("capi-error-helper", subs((CAPI, r"if !error\.is_null\(\) \{\n\s*\*error = (.*);\n\s*\}", r"set_error(error, \1);"), (CAPI, re.escape(REF), "#[inline]\nunsafe fn set_error(error: *mut u8, value: u8) {\n    if !error.is_null() {\n        *error = value;\n    }\n}\n\n" + REF))),
("capi-count-match", subs((CAPI, r"let Some\((graph|matrix)\) = (\w+)\((\w+)\) else \{\n\s*return 0;\n\s*\};\n\n\s*(\1\.[\w]+\(\w*\))\n", r"match \2(\3) {\n        Some(\1) => \4,\n        None => 0,\n    }\n"))),
("capi-count-mapor", subs((CAPI, r"let Some\((graph|matrix)\) = (\w+)\((\w+)\) else \{\n\s*return 0;\n\s*\};\n\n\s*(\1\.[\w]+\(\w*\))\n", r"\2(\3).map_or(0, |\1| \4)\n"))),
("capi-list-loop", subs((CAPI, r"let (in_edges|out_edges) = graph\n\s*\.(\w+)\(vertex_id\)\n\s*\.into_iter\(\)\n\s*\.map\(\|vertex_id\| GphrxGraphVertex \{ vertex_id \}\)\n\s*\.collect::<Vec<_>>\(\);", r"let vertices = graph.\2(vertex_id);\n    let mut \1 = Vec::with_capacity(vertices.len());\n    for vertex_id in vertices {\n        \1.push(GphrxGraphVertex { vertex_id });\n    }"))),
("capi-list-helper", subs((CAPI, r"let (in_edges|out_edges) = graph\n\s*\.(\w+)\(vertex_id\)\n\s*\.into_iter\(\)\n\s*\.map\(\|vertex_id\| GphrxGraphVertex \{ vertex_id \}\)\n\s*\.collect::<Vec<_>>\(\);\n\s*if !length.is_null\(\) \{\n\s*\*length = \1.len\(\);\n\s*\}\n\n\s*Box::into_raw\(\1.into_boxed_slice\(\)\) as \*mut _", r"vertex_list(graph.\2(vertex_id), length)"), (CAPI, re.escape(REF), "unsafe fn vertex_list(vertices: Vec<u64>, length: *mut usize) -> *mut GphrxGraphVertex {\n    let list = vertices\n        .into_iter()\n        .map(|vertex_id| GphrxGraphVertex { vertex_id })\n        .collect::<Vec<_>>();\n    if !length.is_null() {\n        *length = list.len();\n    }\n\n    Box::into_raw(list.into_boxed_slice()) as *mut _\n}\n\n" + REF))),
("capi-null-check", subs((CAPI, r"let Some\(graph\) = graph_ref\(graph\) else \{\n\s*return (0|C_FALSE);\n\s*\};", r"if graph.graph_ptr.is_null() {\n        return \1;\n    }\n    let graph = &*(graph.graph_ptr as *const Graph);"))),
("capi-slice-helper", subs((CAPI, r"let buffer = if buffer_size == 0 \{\n\s*&\[\]\n\s*\} else \{\n\s*slice::from_raw_parts\(buffer, buffer_size\)\n\s*\};", "let buffer = bytes_from_raw(buffer, buffer_size);"), (CAPI, re.escape(REF), "#[inline]\nunsafe fn bytes_from_raw<'a>(buffer: *const u8, buffer_size: usize) -> &'a [u8] {\n    if buffer_size == 0 {\n        &[]\n    } else {\n        slice::from_raw_parts(buffer, buffer_size)\n    }\n}\n\n" + REF))),
("capi-free-let", subs((CAPI, r"drop\((Box::from_raw\(graph\.graph_ptr as \*mut \w+\))\);", r"let _ = \1;"))),
("capi-free-if", subs((CAPI, r"if graph\.graph_ptr\.is_null\(\) \{\n\s*return;\n\s*\}\n\s*(drop\(Box::from_raw\(graph\.graph_ptr as \*mut \w+\)\);)", r"if !graph.graph_ptr.is_null() {\n        \1\n    }"))),
("capi-mut-iflet", subs((CAPI, r"let Some\(graph\) = graph_mut\(graph\) else \{\n\s*return;\n\s*\};\n\n\s*(graph\.\w+\(from_vertex_id, to_vertex_id\);)\n", r"if let Some(graph) = graph_mut(graph) {\n        \1\n    }\n"))),
("capi-result-iflet", subs((CAPI, r"match graph\.to_bytes\(\) \{\n\s*Ok\(buffer\) => boxed_bytes_to_raw\(buffer, buffer_size\),\n\s*Err\(_\) => ptr::null_mut\(\),\n\s*\}", r"if let Ok(buffer) = graph.to_bytes() {\n        boxed_bytes_to_raw(buffer, buffer_size)\n    } else {\n        ptr::null_mut()\n    }"))),
("capi-result-letelse", subs((CAPI, r"match graph\.to_bytes\(\) \{\n\s*Ok\(buffer\) => boxed_bytes_to_raw\(buffer, buffer_size\),\n\s*Err\(_\) => ptr::null_mut\(\),\n\s*\}", r"let Ok(buffer) = graph.to_bytes() else {\n        return ptr::null_mut();\n    };\n    boxed_bytes_to_raw(buffer, buffer_size)"))),
("capi-addvertex-match", subs((CAPI, r"let to_vertexs = if to_vertexs_len == 0 \{\n\s*&\[\]\n\s*\} else \{\n\s*slice::from_raw_parts\(to_vertexs, to_vertexs_len\)\n\s*\};\n\n\s*graph\.add_vertex\(\n\s*vertex_id,\n\s*if to_vertexs_len == 0 \{\n\s*None\n\s*\} else \{\n\s*Some\(to_vertexs\)\n\s*\},\n\s*\);", "let to_vertexs = if to_vertexs_len == 0 {\n        None\n    } else {\n        Some(slice::from_raw_parts(to_vertexs, to_vertexs_len))\n    };\n\n    graph.add_vertex(vertex_id, to_vertexs);"))),
("capi-error-iflet", subs((CAPI, r"let graph = match Graph::try_from\(buffer\) \{\n\s*Ok\(b\) => b,\n\s*Err\(_\) => \{([^}]*\})\n\s*return ([^;]*;)\n\s*\}\n\s*\};", r"let Ok(graph) = Graph::try_from(buffer) else {\1\n        return \2\n    };"))),
("share-read-be", subs((STD, r"(?s)\nfn read_u32_be.*?\n\}\n\nfn read_u64_be.*?\n\}\n", "\n"), (STD, r"use crate::util::\{self, constants::\*\};", "use crate::graph::compressed::{read_u32_be, read_u64_be};\nuse crate::util::{self, constants::*};"), (CMP, r"\nfn read_", "\npub(crate) fn read_"))),
("std-in-out", subs((STD, r"if self\.is_undirected \{\n\s*self\.adjacency_matrix\.get_sparse_col_vector\(vertex_id\)", "if self.is_undirected {\n            self.get_vertex_out_edges(vertex_id)"), (STD, r"if self\.is_undirected \{\n\s*self\.adjacency_matrix\.col_nonzero_entry_count\(vertex_id\)", "if self.is_undirected {\n            self.get_vertex_out_degree(vertex_id)"))),
("std-in-early", subs((STD, r"if self\.is_undirected \{\n(\s*self\.adjacency_matrix\.get_sparse_col_vector\(vertex_id\))\n\s*\} else \{\n\s*(self.*)\n\s*\}", r"if self.is_undirected {\n            return self.adjacency_matrix.get_sparse_col_vector(vertex_id);\n        }\n\n        \2"))),
("std-exist-eq", subs((STD, r"\.get_entry\(from_vertex_id, to_vertex_id\)\n\s*!= 0", ".get_entry(from_vertex_id, to_vertex_id)\n            == 1"))),
("std-blocks-helper", subs((STD, r"let are_edge_blocks_padded = !self\.vertex_count\(\)\.is_multiple_of\(block_dimension\);\n\n\s*let mut blocks_per_row = self\.vertex_count\(\) / block_dimension;\n\s*if are_edge_blocks_padded \{\n\s*blocks_per_row \+= 1;\n\s*\}\n\s*let blocks_per_row = blocks_per_row;", "let blocks_per_row = self.blocks_per_row(block_dimension);"), (STD, r"\nfn read_u32_be", "\nimpl StandardGraph {\n    fn blocks_per_row(&self, block_dimension: u64) -> u64 {\n        let blocks_per_row = self.vertex_count() / block_dimension;\n        if self.vertex_count().is_multiple_of(block_dimension) {\n            blocks_per_row\n        } else {\n            blocks_per_row + 1\n        }\n    }\n}\n\nfn read_u32_be"))),
("std-blocks-divceil", subs((STD, r"let are_edge_blocks_padded = !self\.vertex_count\(\)\.is_multiple_of\(block_dimension\);\n\n\s*let mut blocks_per_row = self\.vertex_count\(\) / block_dimension;\n\s*if are_edge_blocks_padded \{\n\s*blocks_per_row \+= 1;\n\s*\}\n\s*let blocks_per_row = blocks_per_row;", "let blocks_per_row = self.vertex_count().div_ceil(block_dimension);"))),
("std-header-helper", subs((STD, r"        if magic_number != GRAPH_BYTES_MAGIC_NUMBER \{\n(?:.*\n)*?        if adjacency_matrix_dimension == 0 &&", "        check_header(magic_number, version, is_undirected, is_weighted)?;\n\n        if adjacency_matrix_dimension == 0 &&"), (STD, r"\nfn read_u32_be", """
fn check_header(
    magic_number: u32,
    version: u32,
    is_undirected: u8,
    is_weighted: u8,
) -> Result<(), GraphRoxError> {
    if magic_number != GRAPH_BYTES_MAGIC_NUMBER {
        return Err(GraphRoxError::InvalidFormat(String::from(
            "Incorrect magic number",
        )));
    }

    if version != GRAPH_BYTES_VERSION {
        return Err(GraphRoxError::InvalidFormat(String::from(
            "Unrecognized Graph version",
        )));
    }

    if is_undirected > 1 {
        return Err(GraphRoxError::InvalidFormat(String::from(
            "Invalid graph direction flag",
        )));
    }

    if is_weighted != 0 {
        return Err(GraphRoxError::InvalidFormat(String::from(
            "Weighted graphs are not supported",
        )));
    }

    Ok(())
}

fn read_u32_be"""))),
("std-for-count", subs((STD, r"let mut pos = GRAPH_BYTES_HEADER_SIZE;\n\n\s*while pos < expected_buffer_size \{", "let mut pos = GRAPH_BYTES_HEADER_SIZE;\n\n        for _ in 0..adjacency_matrix_entry_count {"))),
("std-for-stepby", subs((STD, r"let mut pos = GRAPH_BYTES_HEADER_SIZE;\n\n\s*while pos < expected_buffer_size \{\n\s*let col = read_u64_be\(bytes, pos\)\?;\n\s*pos \+= std::mem::size_of::<u64>\(\);\n\n\s*let row = read_u64_be\(bytes, pos\)\?;\n\s*pos \+= std::mem::size_of::<u64>\(\);\n", "for pos in (GRAPH_BYTES_HEADER_SIZE..expected_buffer_size).step_by(16) {\n            let col = read_u64_be(bytes, pos)?;\n            let row = read_u64_be(bytes, pos + 8)?;\n"))),
("std-size-helper", subs((STD, r"let expected_buffer_size = usize::try_from\(adjacency_matrix_entry_count\)(?:.*\n)*?            \}\)\?;\n", "let expected_buffer_size = byte_size(adjacency_matrix_entry_count).ok_or_else(|| {\n            GraphRoxError::InvalidFormat(String::from(\"Graph byte size overflowed\"))\n        })?;\n"), (STD, r"\nfn read_u32_be", "\nfn byte_size(edge_count: u64) -> Option<usize> {\n    usize::try_from(edge_count)\n        .ok()?\n        .checked_mul(2)?\n        .checked_mul(std::mem::size_of::<u64>())?\n        .checked_add(GRAPH_BYTES_HEADER_SIZE)\n}\n\nfn read_u32_be"))),
("std-pool-order", subs((STD, r"avg_pool_matrix\.set_minimum_dimension\(blocks_per_row\);\n(\s*)avg_pool_matrix\.multiply_entries_by\(block_multiplier\);", r"avg_pool_matrix.multiply_entries_by(block_multiplier);\n\1avg_pool_matrix.set_minimum_dimension(blocks_per_row);"))),
("std-delete-order", subs((STD, r"self\.adjacency_matrix\n\s*\.zero_entry\(from_vertex_id, to_vertex_id\);\n\n\s*if self\.is_undirected \{\n\s*self\.adjacency_matrix\n\s*\.zero_entry\(to_vertex_id, from_vertex_id\);\n\s*\}", "let matrix = &mut self.adjacency_matrix;\n        if self.is_undirected {\n            matrix.zero_entry(to_vertex_id, from_vertex_id);\n        }\n        matrix.zero_entry(from_vertex_id, to_vertex_id);"))),
("std-add-skip-loop", subs((STD, r"if self\.is_undirected \{\n(\s*self\.adjacency_matrix\n\s*\.set_entry\(1, to)", r"if self.is_undirected && from_vertex_id != to_vertex_id {\n\1"))),
("cmp-exist-and", subs((CMP, r"let bit_at_pos = \(entry >> pos_in_entry\) & 1;\n\n\s*bit_at_pos == 1", "entry & (1 << pos_in_entry) != 0"))),
("cmp-exist-early-out", subs((CMP, r"if entry == 0 \{\n\s*return false;\n\s*\}\n\n", ""))),
("cmp-decompress-nested", subs((CMP, r"let mut curr = Wrapping\(1\);\n\s*for i in 0\.\.64 \{\n(?:.*\n)*?                curr <<= 1;\n\s*\}\n", """for row_in_block in 0..COMPRESSION_BLOCK_DIMENSION {
                for col_in_block in 0..COMPRESSION_BLOCK_DIMENSION {
                    let bit = row_in_block * COMPRESSION_BLOCK_DIMENSION + col_in_block;
                    if (entry >> bit) & 1 == 1 {
                        graph.add_edge(
                            col * COMPRESSION_BLOCK_DIMENSION + col_in_block,
                            row * COMPRESSION_BLOCK_DIMENSION + row_in_block,
                        );
                    }
                }
            }
"""), (CMP, r"use std::num::Wrapping;\n", ""))),
("cmp-decompress-trailing", subs((CMP, r"let mut curr = Wrapping\(1\);\n\s*for i in 0\.\.64 \{\n(?:.*\n)*?                curr <<= 1;\n\s*\}\n", """let mut rest = entry;
            while rest != 0 {
                let bit = u64::from(rest.trailing_zeros());
                rest &= rest - 1;
                graph.add_edge(
                    col * COMPRESSION_BLOCK_DIMENSION + bit % COMPRESSION_BLOCK_DIMENSION,
                    row * COMPRESSION_BLOCK_DIMENSION + bit / COMPRESSION_BLOCK_DIMENSION,
                );
            }
"""), (CMP, r"use std::num::Wrapping;\n", ""))),
("cmp-version-match", subs((CMP, r"if version < COMPRESSED_GRAPH_BYTES_VERSION \{\n(\s*return Err\((?:.*\n)*?\s*\)\)\);)\n\s*\} else if version != COMPRESSED_GRAPH_BYTES_VERSION \{\n(\s*return Err\((?:.*\n)*?\s*\)\)\);)\n\s*\}", r"if version != COMPRESSED_GRAPH_BYTES_VERSION {\n            if version < COMPRESSED_GRAPH_BYTES_VERSION {\n\1\n            }\n\2\n        }"))),
("cmp-level-range", subs((CMP, r"if !\(1\.\.=64\)\.contains\(&compression_level\) \{", "if compression_level == 0 || compression_level > 64 {"))),
("cmp-builder-struct", subs((CMP, r"(?s)        let mut adjacency_matrix = CsrSquareMatrix::default\(\);\n\n(.*?)        adjacency_matrix\.set_entry\(0, column_count, 0\);\n\n        Self \{\n            graph: (CompressedGraph \{.*?\n            \}),\n        \}", r"\1        let mut graph = \2;\n        graph.adjacency_matrix.set_entry(0, column_count, 0);\n\n        Self { graph }"), (CMP, r"vertex_count,\n                adjacency_matrix,", "vertex_count,\n                adjacency_matrix: CsrSquareMatrix::default(),"))),
("cmp-add-mapor", subs((CMP, r"let additional_edges = if let Some\(w\) = hamming_weight \{\n\s*w\n\s*\} else \{\n\s*find_hamming_weight\(entry\)\n\s*\};", "let additional_edges = hamming_weight.unwrap_or_else(|| find_hamming_weight(entry));"))),
("cmp-transpose-nested", subs((CMP, r"for bit in 0\.\.64 \{\n\s*if \(\(entry >> bit\) & 1\) != 0 \{\n\s*let transposed_bit(?:.*\n)*?\s*transposed_entry \|= 1 << transposed_bit;\n\s*\}\n\s*\}", "for row in 0..COMPRESSION_BLOCK_DIMENSION {\n        for col in 0..COMPRESSION_BLOCK_DIMENSION {\n            let bit = (entry >> (row * COMPRESSION_BLOCK_DIMENSION + col)) & 1;\n            transposed_entry |= bit << (col * COMPRESSION_BLOCK_DIMENSION + row);\n        }\n    }"))),
("adj-text-front", subs((ADJ, r"for col in 0\.\.self\.dimension \{\n\s*buffer\.push\(if self(?:.*\n)*?                \}\n            \}\n            buffer\.push\('\]'\);", "for col in 0..self.dimension {\n                if col > 0 {\n                    buffer.push_str(\", \");\n                }\n                buffer.push(if self.get_entry(col, row) == 0 {\n                    '0'\n                } else {\n                    '1'\n                });\n            }\n            buffer.push_str(\" ]\");"))),
("adj-text-digit", subs((ADJ, r"buffer\.push\(if self\.get_entry\(col, row\) == 0 \{\n\s*'0'\n\s*\} else \{\n\s*'1'\n\s*\}\);", "let digit = match self.get_entry(col, row) {\n                    0 => '0',\n                    _ => '1',\n                };\n                buffer.push(digit);"))),
("adj-text-row-helper", subs((ADJ, r"            for col in 0\.\.self\.dimension \{\n(?:.*\n)*?                \}\n            \}\n            buffer\.push\('\]'\);", "            self.push_row(&mut buffer, row);\n            buffer.push(']');"), (ADJ, r"\nimpl MatrixRepresentation<u8> for", "\nimpl CsrAdjacencyMatrix {\n    fn push_row(&self, buffer: &mut String, row: u64) {\n        for col in 0..self.dimension {\n            buffer.push(if self.get_entry(col, row) == 0 {\n                '0'\n            } else {\n                '1'\n            });\n            if col != self.dimension - 1 {\n                buffer.push_str(\", \");\n            } else {\n                buffer.push(' ');\n            }\n        }\n    }\n}\n\nimpl MatrixRepresentation<u8> for"))),
("adj-text-last", subs((ADJ, r"        for row in 0\.\.self\.dimension \{\n            buffer\.push_str", "        let last = self.dimension - 1;\n        for row in 0..self.dimension {\n            buffer.push_str"), (ADJ, r"if col != self\.dimension - 1 \{", "if col < last {"), (ADJ, r"if row != self\.dimension - 1 \{", "if row < last {"))),
("adj-zero-inline", subs((ADJ, r"let row_set = match self\.edges_table\.get_mut\(&col\) \{\n\s*Some\(s\) => s,\n\s*None => return,\n\s*\};\n\n\s*let was_removed = row_set\.remove\(&row\);\n\n\s*if was_removed \{", "let Some(row_set) = self.edges_table.get_mut(&col) else {\n            return;\n        };\n\n        if row_set.remove(&row) {"))),
("adj-default-derive", subs((ADJ, r"#\[derive\(Clone, Debug\)\]\npub struct CsrAdjacencyMatrix", "#[derive(Clone, Debug, Default)]\npub struct CsrAdjacencyMatrix"), (ADJ, r"impl Default for CsrAdjacencyMatrix \{\n(?:.*\n)*?\}\n\n", ""))),
("adj-grow-helper", subs((ADJ, r"        if col_dimension > self\.dimension \{\n\s*self\.dimension = col_dimension\n\s*\}\n\n\s*if row_dimension > self\.dimension \{\n\s*self\.dimension = row_dimension\n\s*\}\n", "        self.grow(col_dimension);\n        self.grow(row_dimension);\n"), (ADJ, r"\nimpl MatrixRepresentation<u8> for", "\nimpl CsrAdjacencyMatrix {\n    fn grow(&mut self, dimension: u64) {\n        if dimension > self.dimension {\n            self.dimension = dimension;\n        }\n    }\n}\n\nimpl MatrixRepresentation<u8> for"))),
("sq-grow-helper", subs((SQ, r"        if col_dimension > self\.dimension \{\n\s*self\.dimension = col_dimension\n\s*\}\n\n\s*if row_dimension > self\.dimension \{\n\s*self\.dimension = row_dimension\n\s*\}\n", "        self.set_minimum_dimension(col_dimension.max(row_dimension));\n"))),
("sq-both-checked", subs((SQ, r"let Some\(col_dimension\) = col\.checked_add\(1\) else \{\n\s*return;\n\s*\};\n\s*let Some\(row_dimension\) = row\.checked_add\(1\) else \{\n\s*return;\n\s*\};", "let (Some(col_dimension), Some(row_dimension)) = (col.checked_add(1), row.checked_add(1)) else {\n            return;\n        };"))),
("adj-max-guard", subs((ADJ, r"let Some\(col_dimension\) = col\.checked_add\(1\) else \{\n\s*return;\n\s*\};\n\s*let Some\(row_dimension\) = row\.checked_add\(1\) else \{\n\s*return;\n\s*\};", "if col == u64::MAX || row == u64::MAX {\n            return;\n        }\n        let col_dimension = col + 1;\n        let row_dimension = row + 1;"))),
("sq-next-while", subs((SQ, r"(?s)        loop \{\n            if let Some\(row_iter\) = &mut self\.row_iter \{\n.*?\n        \}\n    \}\n\}", "        loop {\n            if let Some((r, e)) = self.row_iter.as_mut().and_then(|row_iter| row_iter.next()) {\n                return Some((*e, self.curr_col, *r));\n            }\n\n            let (col, row_set) = self.col_iter.next()?;\n            self.curr_col = *col;\n            self.row_iter = Some(row_set.iter());\n        }\n    }\n}"))),
("sq-next-noguard", subs((SQ, r"        if self\.matrix\.dimension\(\) == 0 \{\n            return None;\n        \}\n\n        loop", "        loop"), (SQ, r"    matrix: &'a CsrSquareMatrix<T>,\n", ""), (SQ, r"            matrix: self,\n", ""))),
("sq-zero-chain", subs((SQ, r"let row_table = match self\.edges_table\.get_mut\(&col\) \{\n\s*Some\(t\) => t,\n\s*None => return,\n\s*\};\n\n\s*let removal = row_table\.remove\(&row\);\n\n\s*if removal\.is_some\(\) \{\n\s*self\.entry_count -= 1;\n\s*\}", "if let Some(row_table) = self.edges_table.get_mut(&col) {\n            if row_table.remove(&row).is_some() {\n                self.entry_count -= 1;\n            }\n        }"))),
]

# helpers shared between modules
READ_BE = """
pub(crate) fn read_u32_be(bytes: &[u8], offset: usize) -> Result<u32, GraphRoxError> {
    let too_short = || GraphRoxError::InvalidFormat(String::from("Slice is too short for graph field"));
    let end = offset.checked_add(4).ok_or_else(too_short)?;
    let slice = bytes.get(offset..end).ok_or_else(too_short)?;
    Ok(u32::from_be_bytes(slice.try_into().map_err(|_| too_short())?))
}

pub(crate) fn read_u64_be(bytes: &[u8], offset: usize) -> Result<u64, GraphRoxError> {
    let end = offset.checked_add(8).ok_or_else(|| {
        GraphRoxError::InvalidFormat(String::from("Graph byte offset overflowed"))
    })?;
    let slice = bytes.get(offset..end).ok_or_else(|| {
        GraphRoxError::InvalidFormat(String::from("Slice is too short for graph field"))
    })?;
    Ok(u64::from_be_bytes(slice.try_into().map_err(|_| {
        GraphRoxError::InvalidFormat(String::from("Invalid u64 field"))
    })?))
}
"""
DROP_BE = r"(?s)\nfn read_u32_be.*?\n\}\n\nfn read_u64_be.*?\n\}\n"
SIZE_STD = r"let expected_buffer_size = usize::try_from\(adjacency_matrix_entry_count\)(?:.*\n)*?            \}\)\?;\n"
BITS = "\n#[inline]\npub(crate) fn bit_count(num: u64) -> u64 {\n    u64::from(num.count_ones())\n}\n"
R += [
("util-read-be", subs((STD, DROP_BE, "\n"), (CMP, DROP_BE, "\n"), (STD, r"use crate::util::\{self, constants::\*\};", "use crate::util::{self, constants::*, read_u32_be, read_u64_be};"), (CMP, r"use crate::util::\{self, constants::\*\};", "use crate::util::{self, constants::*, read_u32_be, read_u64_be};"), (UT, r"\Apub mod constants", "use crate::error::GraphRoxError;\n\npub mod constants"), (UT, r"\n#\[inline\]\npub fn clamp_threshold", READ_BE + "\n#[inline]\npub fn clamp_threshold"))),
("util-read-be-simple", subs((STD, DROP_BE, "\n"), (CMP, DROP_BE, "\n"), (STD, r"read_u(\d+)_be", r"util::read_u\1_be"), (CMP, r"read_u(\d+)_be", r"util::read_u\1_be"), (UT, r"\Apub mod constants", "use crate::error::GraphRoxError;\n\npub mod constants"), (UT, r"\n#\[inline\]\npub fn clamp_threshold", READ_BE.replace("let too_short = || GraphRoxError::InvalidFormat(String::from(\"Slice is too short for graph field\"));\n", "").replace("(too_short)", "(|| GraphRoxError::InvalidFormat(String::from(\"Slice is too short\")))").replace("too_short()", "GraphRoxError::InvalidFormat(String::from(\"Slice is too short\"))") + "\n#[inline]\npub fn clamp_threshold"))),
("util-size", subs((STD, SIZE_STD, "let expected_buffer_size =\n            util::byte_size(adjacency_matrix_entry_count, 16, GRAPH_BYTES_HEADER_SIZE).ok_or_else(|| {\n                GraphRoxError::InvalidFormat(String::from(\"Graph byte size overflowed\"))\n            })?;\n"), (UT, r"\n#\[inline\]\npub fn clamp_threshold", "\npub(crate) fn byte_size(count: u64, entry_size: usize, header_size: usize) -> Option<usize> {\n    let count = usize::try_from(count).ok()?;\n    count.checked_mul(entry_size)?.checked_add(header_size)\n}\n\n#[inline]\npub fn clamp_threshold"))),
("util-bit-count", subs((CMP, r"find_hamming_weight\(entry\)", "util::bit_count(entry)"), (CMP, r"(fn find_hamming_weight\(num: u64\) -> u64 \{\n)\s*.*\n", r"\1    util::bit_count(num)" + "\n"), (UT, r"\n#\[inline\]\npub fn clamp_threshold", BITS + "\n#[inline]\npub fn clamp_threshold"))),
("std-check-bounds-helper", subs((STD, r"            if col >= adjacency_matrix_dimension \|\| row >= adjacency_matrix_dimension \{\n(?:.*\n)*?            \}\n", "            check_edge(col, row, adjacency_matrix_dimension)?;\n"), (STD, r"\nfn read_u32_be", "\nfn check_edge(col: u64, row: u64, dimension: u64) -> Result<(), GraphRoxError> {\n    if col < dimension && row < dimension {\n        Ok(())\n    } else {\n        Err(GraphRoxError::InvalidFormat(String::from(\n            \"Graph edge exceeds matrix dimension\",\n        )))\n    }\n}\n\nfn read_u32_be"))),
("std-read-edge-helper", subs((STD, r"            let col = read_u64_be\(bytes, pos\)\?;\n\s*pos \+= std::mem::size_of::<u64>\(\);\n\n\s*let row = read_u64_be\(bytes, pos\)\?;\n\s*pos \+= std::mem::size_of::<u64>\(\);\n", "            let (col, row) = read_edge(bytes, pos)?;\n            pos += 2 * std::mem::size_of::<u64>();\n"), (STD, r"\nfn read_u32_be", "\nfn read_edge(bytes: &[u8], offset: usize) -> Result<(u64, u64), GraphRoxError> {\n    let col = read_u64_be(bytes, offset)?;\n    let row = read_u64_be(bytes, offset + std::mem::size_of::<u64>())?;\n    Ok((col, row))\n}\n\nfn read_u32_be"))),
("cmp-read-entry-helper", subs((CMP, r"            let entry = read_u64_be\(bytes, pos\)\?;\n\s*pos \+= .*\n\n\s*let col = read_u64_be\(bytes, pos\)\?;\n\s*pos \+= .*\n\n\s*let row = read_u64_be\(bytes, pos\)\?;\n\s*pos \+= .*\n", "            let (entry, col, row) = (\n                read_u64_be(bytes, pos)?,\n                read_u64_be(bytes, pos + 8)?,\n                read_u64_be(bytes, pos + 16)?,\n            );\n            pos += 24;\n"))),
("adj-col-entries", subs((STD, r"self\.adjacency_matrix\.get_sparse_col_vector\(", "self.adjacency_matrix.entries_of_column("), (ADJ, r"\nimpl MatrixRepresentation<u8> for", "\nimpl CsrAdjacencyMatrix {\n    pub(crate) fn entries_of_column(&self, col: u64) -> Vec<u64> {\n        self.get_sparse_col_vector(col)\n    }\n}\n\nimpl MatrixRepresentation<u8> for"))),
("adj-has-entry", subs((STD, r"self\.adjacency_matrix\n\s*\.get_entry\(from_vertex_id, to_vertex_id\)\n\s*!= 0", "self.adjacency_matrix.has_entry(from_vertex_id, to_vertex_id)"), (ADJ, r"\nimpl MatrixRepresentation<u8> for", "\nimpl CsrAdjacencyMatrix {\n    pub(crate) fn has_entry(&self, col: u64, row: u64) -> bool {\n        self.edges_table\n            .get(&col)\n            .is_some_and(|rows| rows.contains(&row))\n    }\n}\n\nimpl MatrixRepresentation<u8> for"))),
]
NOOPS = ["let _ = 0;", "();", "if false {}", "{}", "let _unused = 1 + 1;", "let _ = std::hint::black_box(0);", "std::hint::black_box(());", "debug_assert!(true);", "assert!(true);", "let _gx: () = ();", "std::mem::drop(());", "drop(());", "for _ in 0..0 {}", "while false {}", "loop { break; }", "match () { () => {} }"]

def noop_edit(stmt):
    def f():
        for p in (STD, CMP, ADJ, SQ, UT):
            t = open(f"{W}/{p}").read()
            cut = t.find("#[cfg(test)]")
            head, tail = (t[:cut], t[cut:]) if cut > 0 else (t, "")
            out, i = "", 0
            for m in re.finditer(r"\n    (?:    )?(?:pub |pub\(crate\) |unsafe )*fn \w+[^;{]*\{\n|\n(?:pub )?fn \w+[^;{]*\{\n", head):
                out += head[i:m.end()] + " " * 8 + stmt + "\n"
                i = m.end()
            open(f"{W}/{p}", "w").write(out + head[i:] + tail)
    return f
R = [x for x in R if x[0] != "noop-everywhere"] + [(f"noop-{i}", noop_edit(s)) for i, s in enumerate(NOOPS)]

def sh(c): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

class Quiet:
    def more(self): pass
    def found(self): return False

def main():
    import check
    if not os.path.exists(W): sh(f"cp -a /repo {W}")
    check.REPO, check.WORK = W, W + "-work"
    os.makedirs(check.WORK, exist_ok=True)
    for name, edits in R:
        if sys.argv[1:] and not any(re.fullmatch(a, name) for a in sys.argv[1:]): continue
        sh(f"cd {W} && git checkout -q -- . && git fetch -q /repo && git reset -q --hard $(git -C /repo rev-parse HEAD)")
        bad = None
        if callable(edits): edits()
        else:
            for f, old, new in edits:
                t = open(f"{W}/{f}").read()
                if old not in t and "pub fn" in old: pass
                if old not in t: bad = f"TEXT NOT FOUND {old[:60]!r}"; break
                open(f"{W}/{f}", "w").write(t.replace(old, new, 1))
        if bad: print(name, bad); continue
        t = sh(f"cd {W} && cargo test --workspace --offline --no-fail-fast 2>&1 | grep -E '^test .*FAILED|^error|failed to' | head -5")
        if t.stdout.strip(): print(name, "DOES NOT BUILD/PASS", sh(f"cd {W} && cargo build --offline 2>&1 | grep -A5 ^error").stdout[:600] or t.stdout); continue
        check.LIMIT = 10**9
        P = check.prove("quick", Quiet())
        dem = {k: f["problems"] for k, f in P.functions.items() if f["kind"] == "demoted"}
        def short(d): return {k: [(e["obligation"][:70], e["where"][:150]) for e in v][:2] for k, v in d.items()}
        private = set(open(os.path.join(os.path.dirname(check.__file__), "contracts/private.txt")).read().split("\n"))
        P.missing = [k for k in P.missing if k not in private]
        state = "proved" if P.ok and not P.failed and not P.undecided and not dem and not P.missing and not P.vacuous else "FAILED" if P.failed else "quiet"
        print(f"{name}: {state}", "" if state == "proved" else f"\n   failed {short(P.failed)}\n   undecided {short(P.undecided)}\n   demoted {dem} lean {[k for k in P.demoted]} missing {P.missing} vac {P.vacuous} {P.note}", flush=True)
    sh(f"cd {W} && git checkout -q -- .")

if __name__ == "__main__": main()
