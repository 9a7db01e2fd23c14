#!/usr/bin/env python3
"""Behaviour-preserving rewrites of the analysed code; every check must stay quiet on them (and should still decide what it
decided before).  `refactors.py [batch ...] [--ids E01,E02]` applies each batch to /repo, runs the repo's tests and the checks,
and undoes it."""
import json
import os
import re
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IT = "aftermath-core/input_tree/src/"
CT = "aftermath-core/caret/src/"
B = {}

# ---- batch a: helpers extracted, iterators <-> loops -------------------------------------------------
B["a"] = [
    (IT + "input_tree.rs", """        let mut row = &mut self.root;
        for index in row_indices.iter() {
            row = row
                .values
                .get_mut(index.0)
                .expect("Invalid row index")
                .row_mut(index.1);
        }
""", """        let row = Self::row_at_mut(&mut self.root, row_indices);
"""),
    (IT + "input_tree.rs", """impl Default for InputTree {""", """impl InputTree {
    fn row_at_mut<'r>(root: &'r mut InputRow, indices: &crate::row::RowIndices) -> &'r mut InputRow {
        indices.iter().fold(root, |row, index| {
            let node = &mut row.values[index.0];
            node.row_mut(index.1)
        })
    }
}

impl Default for InputTree {"""),
    (IT + "input_tree.rs", """                let start = position.offset.0;
                row.values.splice(start..start, values.iter().cloned());
""", """                let tail = row.values.split_off(position.offset.0);
                row.values.extend_from_slice(values);
                row.values.extend(tail);
"""),
    (IT + "input_tree.rs", """                let start = position.offset.0;
                row.values
                    .splice(start..(start + values.len()), std::iter::empty());
""", """                let start = position.offset.0;
                row.values.drain(start..start + values.len());
"""),
    (IT + "row.rs", """            HorizontalDirection::Left => {
                if offset.0 == 0 {
                    None
                } else {
                    Some(offset.0 - 1)
                }
            }
            HorizontalDirection::Right => {
                if offset.0 >= self.len() {
                    None
                } else {
                    Some(offset.0)
                }
            }
""", """            HorizontalDirection::Left => offset.0.checked_sub(1),
            HorizontalDirection::Right => (offset.0 < self.len()).then_some(offset.0),
"""),
    (IT + "row.rs", """        RowIndices::new(
            self.0
                .iter()
                .zip(other.0.iter())
                .take_while(|(a, b)| a == b)
                .map(|(a, _)| *a)
                .collect(),
        )
""", """        let mut shared = Vec::new();
        for (a, b) in self.0.iter().zip(&other.0) {
            if a != b {
                break;
            }
            shared.push(*a);
        }
        RowIndices::new(shared)
"""),
    (IT + "focus/row_range.rs", """        if self.is_forwards() {
            self.start
        } else {
            self.end
        }
    }

    pub fn right_offset(&self) -> Offset {
        if self.is_forwards() {
            self.end
        } else {
            self.start
        }
    }
""", """        self.start.min(self.end)
    }

    pub fn right_offset(&self) -> Offset {
        std::cmp::max(self.start, self.end)
    }
"""),
    (IT + "focus/row_position.rs", """        let mut range = MinimalInputRowRange {
            row_indices: self.row_indices.clone(),
            start: self.offset,
            end: self.offset,
        };
        range.apply_edit(edit);
        self.row_indices = range.row_indices;
        self.offset = range.start;
""", """        let row_indices = std::mem::take(&mut self.row_indices);
        let mut range = MinimalInputRowRange {
            row_indices,
            start: self.offset,
            end: self.offset,
        };
        range.apply_edit(edit);
        let MinimalInputRowRange {
            row_indices, start, ..
        } = range;
        *self = Self {
            row_indices,
            offset: start,
        };
"""),
    (IT + "focus.rs", """        let mut current = self;
        for index in indices.iter() {
            current = current
                .child_at(index.0)
                .expect("Invalid row-node indices")
                .child_at(index.1)
                .expect("Invalid node-row indices");
        }
        current
""", """        indices.iter().fold(self, |current, index| {
            current.row_at(*index).expect("Invalid indices")
        })
"""),
    (IT + "focus.rs", """        if index >= self.row.len() {
            return None;
        }
        Some(InputFocusNode::new(&self.row.values[index], self, index))
""", """        let node = self.row.values.get(index)?;
        Some(InputFocusNode::new(node, self, index))
"""),
    (IT + "grid.rs", """        let cell = self.get_mut(xy)?;
        let old_value = std::mem::replace(cell, value);
        Some(old_value)
""", """        self.get_mut(xy).map(|cell| std::mem::replace(cell, value))
"""),
    (IT + "grid/index2d.rs", """        let mut result = *self;
        let (x, y) = other;
        result.x = result.x.checked_add(x)?;
        result.y = result.y.checked_add(y)?;
        result.with_grid(grid)
""", """        match (self.x.checked_add(other.0), self.y.checked_add(other.1)) {
            (Some(x), Some(y)) => Self { x, y, ..*self }.with_grid(grid),
            _ => None,
        }
"""),
    (IT + "grid/index2d.rs", """        let (width, height) = grid.size();
        if self.width != width || self.x >= width || self.y >= height {
            None
        } else {
            Some(self)
        }
""", """        let inside = self.width == grid.width() && self.x < self.width && self.y < grid.height();
        inside.then_some(self)
"""),
    (IT + "print_helpers.rs", """        match c {
            '"' => write!(f, "\\\\\\"")?,
            '\\\\' => write!(f, "\\\\\\\\")?,
            _ => write!(f, "{}", c)?,
        }
""", """        if c == '"' || c == '\\\\' {
            write!(f, "\\\\")?;
        }
        write!(f, "{}", c)?;
"""),
    (IT + "print_helpers.rs", """    let mut values = values.into_iter();
    if let Some(first) = values.next() {
        write!(f, "{}", first)?;
        for value in values {
            write!(f, "{}{}", separator, value)?;
        }
    }
    Ok(())
""", """    for (i, value) in values.into_iter().enumerate() {
        if i > 0 {
            f.write_str(separator)?;
        }
        write!(f, "{value}")?;
    }
    Ok(())
"""),
    (IT + "editing/basic_edit.rs", """        let (mut edits, _) = BasicEdit::remove_range(range);
        let (mut insert_edits, position) =
            BasicEdit::insert_at_position(&range.left_position(), values);
        edits.append(&mut insert_edits);
""", """        let (edits, _) = BasicEdit::remove_range(range);
        let (insert_edits, position) =
            BasicEdit::insert_at_position(&range.left_position(), values);
        let edits: Vec<_> = edits.into_iter().chain(insert_edits).collect();
"""),
    (IT + "editing/basic_edit.rs", """        RowEdit {
            edit_type: self.edit_type.inverse(),
            ..self.clone()
        }
""", """        let mut inverse = self.clone();
        inverse.edit_type = match self.edit_type {
            EditType::Delete => EditType::Insert,
            EditType::Insert => EditType::Delete,
        };
        inverse
"""),
    (IT + "editing/editable.rs", """        for edit in edits {
            self.apply_edit(edit);
        }
""", """        edits.iter().for_each(|edit| self.apply_edit(edit));
"""),
    (IT + "node.rs", """        match self {
            InputNode::Container(_, grid) => Some(grid),
            InputNode::Symbol(_) => None,
        }
    }

    pub fn grid_mut""", """        if let InputNode::Container(_, grid) = self {
            return Some(grid);
        }
        None
    }

    pub fn grid_mut"""),
    (IT + "node.rs", """        match self {
            InputNodeVariant::Fraction => false,
            InputNodeVariant::Root => false,
            InputNodeVariant::Sup => false,
            InputNodeVariant::Sub => false,
            InputNodeVariant::Table => true,
        }
""", """        matches!(self, InputNodeVariant::Table)
"""),
    (IT + "row.rs", """        write!(f, "(row")?;
        for value in &self.values {
            write!(f, " {}", value)?;
        }
        write!(f, ")")
""", """        f.write_str("(row")?;
        self.values.iter().try_for_each(|value| write!(f, " {}", value))?;
        f.write_str(")")
"""),
]

# ---- batch b: other shapes of the same code ------------------------------------------------------------
B["b"] = [
    (IT + "input_tree.rs", """        let mut row = &mut self.root;
        for index in row_indices.iter() {
            row = row
                .values
                .get_mut(index.0)
                .expect("Invalid row index")
                .row_mut(index.1);
        }
""", """        let mut row = &mut self.root;
        let mut step = 0;
        while let Some(index) = row_indices.at(step) {
            row = row.values[index.0].row_mut(index.1);
            step += 1;
        }
"""),
    (IT + "input_tree.rs", """                let start = position.offset.0;
                row.values.splice(start..start, values.iter().cloned());
""", """                for (i, value) in values.iter().enumerate() {
                    row.values.insert(position.offset.0 + i, value.clone());
                }
"""),
    (IT + "input_tree.rs", """                let start = position.offset.0;
                row.values
                    .splice(start..(start + values.len()), std::iter::empty());
""", """                let start = position.offset.0;
                let rest = row.values.split_off(start + values.len());
                row.values.truncate(start);
                row.values.extend(rest);
"""),
    (IT + "input_tree.rs", """                        new_grid.extend(old_grid.by_ref().take(values.width() * row_or_column.0));
                        new_grid.extend(insert_grid);
                        new_grid.extend(old_grid);
""", """                        let before = values.width() * row_or_column.0;
                        let cells: Vec<InputRow> = old_grid.collect();
                        let mut cells = cells.into_iter();
                        new_grid = cells.by_ref().take(before).chain(insert_grid).collect();
                        new_grid.extend(cells);
"""),
    (IT + "input_tree.rs", """                        new_grid.extend(old_grid.skip(values.width() * values.height()));
""", """                        let removed = values.width() * values.height();
                        for (i, cell) in old_grid.enumerate() {
                            if i >= removed {
                                new_grid.push(cell);
                            }
                        }
"""),
    (IT + "row.rs", """        let shared_len = self_indices.len().min(other_indices.len());
        {
            let self_slice = self_indices.get_slice(0..shared_len);
            let other_slice = other_indices.get_slice(0..shared_len);
            let row_ordering = self_slice.cmp(other_slice);
            if row_ordering != std::cmp::Ordering::Equal {
                return row_ordering;
            }
        }
""", """        let shared_len = std::cmp::min(self_indices.len(), other_indices.len());
        for (a, b) in self_indices.iter().zip(other_indices.iter()) {
            match a.cmp(b) {
                std::cmp::Ordering::Equal => continue,
                different => return different,
            }
        }
"""),
    (IT + "row.rs", """        let self_offset_or_index = if self_indices.len() > shared_len {
            self_indices.at(shared_len).unwrap().0 * 2 + 1
        } else {
            self_offset.0 * 2
        };
        let other_offset_or_index = if other_indices.len() > shared_len {
            other_indices.at(shared_len).unwrap().0 * 2 + 1
        } else {
            other_offset.0 * 2
        };

        self_offset_or_index.cmp(&other_offset_or_index)
""", """        let place = |indices: &RowIndices, offset: &Offset| {
            indices
                .at(shared_len)
                .map_or(offset.0 * 2, |index| index.0 * 2 + 1)
        };
        place(self_indices, self_offset).cmp(&place(other_indices, other_offset))
"""),
    (IT + "row.rs", """    fn get_slice(&self, range: std::ops::Range<usize>) -> &[RowIndex] {
        &self.0[range]
    }

""", ""),
    (IT + "row.rs", """        RowIndices::new(
            self.0
                .iter()
                .zip(other.0.iter())
                .take_while(|(a, b)| a == b)
                .map(|(a, _)| *a)
                .collect(),
        )
""", """        let mut len = 0;
        while len < self.len() && len < other.len() && self.0[len] == other.0[len] {
            len += 1;
        }
        RowIndices::new(self.0[..len].to_vec())
"""),
    (IT + "focus/row_range.rs", """        // Keep start and end in a sensible order for the code below
        let is_forwards = self.start <= self.end;
        if !is_forwards {
            std::mem::swap(&mut self.start, &mut self.end);
        }
""", """        let is_forwards = self.start <= self.end;
        if !is_forwards {
            (self.start, self.end) = (self.end, self.start);
        }
"""),
    (IT + "focus/row_range.rs", """                    if new_offset < self.start {
                        self.start = Offset(self.start.0.saturating_sub(delta).max(new_offset.0));
                    }
                    if new_offset <= self.end {
                        self.end = Offset(self.end.0.saturating_sub(delta).max(new_offset.0));
                    }
""", """                    let moved = |place: Offset| {
                        if place >= old_offset {
                            Offset(place.0 - delta)
                        } else if place > new_offset {
                            new_offset
                        } else {
                            place
                        }
                    };
                    self.start = moved(self.start);
                    self.end = moved(self.end);
"""),
    (IT + "focus/row_range.rs", """        &self.left_position() <= position && position <= &self.right_position()
""", """        let (left, right) = (self.left_position(), self.right_position());
        !(position < &left || position > &right)
"""),
    (IT + "focus.rs", """        self.parent.map(|x| {
            let mut parent = *x;
            // Give the row indices back to the grandparent
            parent.parent.row_indices = self.row_indices;
            parent.parent.row_indices.pop();
            parent
        })
""", """        let mut row_indices = self.row_indices;
        let mut parent = *self.parent?;
        row_indices.pop();
        std::mem::swap(&mut parent.parent.row_indices, &mut row_indices);
        Some(parent)
"""),
    (IT + "focus.rs", """        match self.node {
            InputNode::Container(_, grid) => match grid.get(Index2D::from_index(index, grid)) {
                Some(row) => {
                    // Take the row indices from the parent
                    let mut indices = self.parent.row_indices;
                    self.parent.row_indices = Default::default();
                    indices.push(RowIndex(self.index_in_parent, index));
                    Ok(InputFocusRow::new(row, Some(self), indices))
                }
                None => Err(self),
            },
            InputNode::Symbol(_) => Err(self),
        }
""", """        let found = self
            .node
            .grid()
            .and_then(|grid| grid.get(Index2D::from_index(index, grid)));
        let Some(row) = found else {
            return Err(self);
        };
        let mut indices = std::mem::take(&mut self.parent.row_indices);
        indices.push(RowIndex(self.index_in_parent, index));
        Ok(InputFocusRow {
            row,
            parent: Some(Box::new(self)),
            row_indices: indices,
        })
"""),
    (IT + "focus.rs", """        let last = self.row_indices.len().checked_sub(1)?;
        self.row_indices.at(last).map(|row_index| row_index.1)
""", """        self.row_indices.iter().last().map(|row_index| row_index.1)
"""),
    (IT + "grid.rs", """        self.values.get(xy.to_index_checked(self)?)
""", """        match xy.to_index_checked(self) {
            Some(index) => Some(&self.values[index]),
            None => None,
        }
"""),
    (IT + "grid.rs", """        assert!(width > 0);
        assert_eq!(values.len() % width, 0);
        GridVec { values, width }
""", """        if width == 0 || values.len() % width != 0 {
            panic!("not a grid");
        }
        Self { width, values }
"""),
    (IT + "grid/index2d.rs", """        self.y * self.width + self.x
""", """        self.x + self.width * self.y
"""),
    (IT + "grid/index2d.rs", """        let checked = self.with_grid(grid);
        checked.map(|v| v.to_index())
""", """        Some(self.with_grid(grid)?.to_index())
"""),
    (IT + "editing/basic_edit.rs", """        let mut old_offset = self.position.offset;
        let mut new_offset = Offset(self.position.offset.0 + self.values.len());
        if self.edit_type == EditType::Delete {
            std::mem::swap(&mut old_offset, &mut new_offset);
        }
        RowIndicesEdit::RowIndexEdit {
            row_indices: &self.position.row_indices,
            old_offset,
            new_offset,
        }
""", """        let before = self.position.offset;
        let after = Offset(before.0 + self.values.len());
        let (old_offset, new_offset) = match self.edit_type {
            EditType::Insert => (before, after),
            EditType::Delete => (after, before),
        };
        RowIndicesEdit::RowIndexEdit {
            row_indices: &self.position.row_indices,
            old_offset,
            new_offset,
        }
"""),
    (IT + "editing/basic_edit.rs", """        match (self.edit_type, self.direction) {
            (EditType::Insert, GridDirection::Column) => {
                (old_grid.width() + self.values.width(), old_grid.height())
            }
            (EditType::Insert, GridDirection::Row) => {
                (old_grid.width(), old_grid.height() + self.values.height())
            }
            (EditType::Delete, GridDirection::Column) => {
                (old_grid.width() - self.values.width(), old_grid.height())
            }
            (EditType::Delete, GridDirection::Row) => {
                (old_grid.width(), old_grid.height() - self.values.height())
            }
        }
""", """        let change = |old: usize, by: usize| match self.edit_type {
            EditType::Insert => old + by,
            EditType::Delete => old - by,
        };
        let (width, height) = old_grid.size();
        match self.direction {
            GridDirection::Column => (change(width, self.values.width()), height),
            GridDirection::Row => (width, change(height, self.values.height())),
        }
"""),
    (IT + "editing/editable.rs", """        for edit in edits {
            self.apply_edit(edit);
        }
""", """        let mut rest = edits;
        while let [first, others @ ..] = rest {
            self.apply_edit(first);
            rest = others;
        }
"""),
    (IT + "node.rs", """        values
            .into_iter()
            .map(|value| Self::Symbol(value.into()))
            .collect()
""", """        let mut nodes = Vec::with_capacity(values.len());
        for value in values {
            nodes.push(Self::symbol(value));
        }
        nodes
"""),
    (IT + "node.rs", """        match self {
            InputNodeVariant::Fraction => write!(f, "frac"),
            InputNodeVariant::Root => write!(f, "root"),
            InputNodeVariant::Sup => write!(f, "sup"),
            InputNodeVariant::Sub => write!(f, "sub"),
            InputNodeVariant::Table => write!(f, "table"),
        }
""", """        let name = match self {
            InputNodeVariant::Fraction => "frac",
            InputNodeVariant::Root => "root",
            InputNodeVariant::Sup => "sup",
            InputNodeVariant::Sub => "sub",
            InputNodeVariant::Table => "table",
        };
        write!(f, "{name}")
"""),
    (IT + "row.rs", """        write!(f, "(row")?;
        for value in &self.values {
            write!(f, " {}", value)?;
        }
        write!(f, ")")
""", """        write!(f, "(row")?;
        let mut i = 0;
        while i < self.values.len() {
            write!(f, " {}", self.values[i])?;
            i += 1;
        }
        write!(f, ")")
"""),
    (IT + "print_helpers.rs", """    let mut values = values.into_iter();
    if let Some(first) = values.next() {
        write!(f, "{}", first)?;
        for value in values {
            write!(f, "{}{}", separator, value)?;
        }
    }
    Ok(())
""", """    let mut before = "";
    for value in values {
        write!(f, "{}{}", before, value)?;
        before = separator;
    }
    Ok(())
"""),
    (IT + "print_helpers.rs", """        match c {
            '"' => write!(f, "\\\\\\"")?,
            '\\\\' => write!(f, "\\\\\\\\")?,
            _ => write!(f, "{}", c)?,
        }
""", """        match c {
            '"' | '\\\\' => write!(f, "\\\\{}", c)?,
            _ => write!(f, "{}", c)?,
        }
"""),
]

# ---- batch c: private representation and fallible helpers ------------------------------------------------
B["c"] = [
    (IT + "input_tree.rs", """            .at(shared.len())
            .map(|index| if is_forwards { index.0 } else { index.0 + 1 })
            .unwrap_or(start.offset.0);
""", """            .at(shared.len())
            .map_or(start.offset.0, |index| index.0 + usize::from(!is_forwards));
"""),
    (IT + "input_tree.rs", """        let end_offset = end
            .row_indices()
            .at(shared.len())
            .map(|index| if is_forwards { index.0 + 1 } else { index.0 })
            .unwrap_or(end.offset.0);
""", """        let end_offset = match end.row_indices().at(shared.len()) {
            Some(index) if is_forwards => index.0 + 1,
            Some(index) => index.0,
            None => end.offset.0,
        };
"""),
    (IT + "input_tree.rs", """                        for _ in 0..values.height() {
                            new_grid.extend(old_grid.by_ref().take(row_or_column.0));
                            new_grid.extend(insert_grid.by_ref().take(values.width()));
                            new_grid.extend(old_grid.by_ref().take(old_size.0 - row_or_column.0));
                        }
""", """                        let mut remaining = values.height();
                        while remaining > 0 {
                            for x in 0..=old_size.0 {
                                if x == row_or_column.0 {
                                    new_grid.extend(insert_grid.by_ref().take(values.width()));
                                }
                                if x < old_size.0 {
                                    new_grid.extend(old_grid.next());
                                }
                            }
                            remaining -= 1;
                        }
"""),
    (IT + "input_tree.rs", """                        for _ in 0..values.height() {
                            new_grid.extend(old_grid.by_ref().take(row_or_column.0));
                            old_grid.by_ref().take(values.width()).for_each(drop);
                            new_grid.extend(
                                old_grid
                                    .by_ref()
                                    .take(old_size.0 - row_or_column.0 - values.width()),
                            );
                        }
""", """                        let removed = row_or_column.0..row_or_column.0 + values.width();
                        new_grid.extend(
                            old_grid
                                .enumerate()
                                .filter(|(i, _)| !removed.contains(&(i % old_size.0)))
                                .map(|(_, cell)| cell),
                        );
"""),
    (IT + "focus/row_range.rs", """                if edit.is_insert() && same_row {""", """                if same_row && new_offset > old_offset {"""),
    (IT + "focus/row_range.rs", """                    if old_offset < self.start {
                        self.start = Offset(self.start.0 + delta)
                    }
                    if old_offset <= self.end {
                        self.end = Offset(self.end.0 + delta)
                    }
""", """                    let Self { start, end, .. } = self;
                    if *start > old_offset {
                        start.0 += delta;
                    }
                    if *end >= old_offset {
                        end.0 += delta;
                    }
"""),
    (IT + "focus/row_range.rs", """                    let row_index = self.row_indices.at_mut(row_indices.len()).unwrap();
                    if new_offset.0 <= row_index.0 && row_index.0 < old_offset.0 {
                        // I'm inside the deleted range, move to the start of the edit
                        self.start = new_offset;
                        self.end = new_offset;
                        self.row_indices = row_indices.clone();
                    } else if old_offset.0 <= row_index.0 {
                        // I'm after the deleted range, move the container
                        let delta = old_offset.0 - new_offset.0;
                        row_index.0 -= delta;
                    }
""", """                    let row_index = self.row_indices.at_mut(row_indices.len()).unwrap();
                    if (new_offset.0..old_offset.0).contains(&row_index.0) {
                        *self = Self {
                            row_indices: row_indices.clone(),
                            start: new_offset,
                            end: new_offset,
                        };
                    } else if row_index.0 >= old_offset.0 {
                        *row_index = (row_index.0 + new_offset.0 - old_offset.0, row_index.1).into();
                    }
"""),
    (IT + "focus/row_range.rs", """    pub fn to_minimal(&self) -> MinimalInputRowRange {
        MinimalInputRowRange {
            row_indices: self.row_focus.row_indices().clone(),
            start: self.start,
            end: self.end,
        }
    }
""", """    pub fn to_minimal(&self) -> MinimalInputRowRange {
        let Self { row_focus, start, end } = self;
        let row_indices = RowIndices::new(row_focus.row_indices().iter().copied().collect());
        MinimalInputRowRange {
            row_indices,
            start: *start,
            end: *end,
        }
    }
"""),
    (IT + "focus.rs", """    node: &'a InputNode,
    parent: InputFocusRow<'a>,
    index_in_parent: usize,
}

impl<'a> InputFocusNode<'a> {
    pub fn new(node: &'a InputNode, parent: InputFocusRow<'a>, index_in_parent: usize) -> Self {
        InputFocusNode {
            node,
            parent,
            index_in_parent,
        }
    }
""", """    parent: InputFocusRow<'a>,
    index_in_parent: usize,
    node: &'a InputNode,
}

impl<'a> InputFocusNode<'a> {
    pub fn new(node: &'a InputNode, parent: InputFocusRow<'a>, index_in_parent: usize) -> Self {
        InputFocusNode {
            node,
            parent,
            index_in_parent,
        }
    }
"""),
    (IT + "grid.rs", """pub struct GridVec<T> {
    values: Vec<T>,
    width: usize,
}
""", """pub struct GridVec<T> {
    width: usize,
    values: Vec<T>,
}
"""),
    (IT + "grid.rs", """        write!(f, "{}x{}", self.width(), self.height())?;
        for value in &self.values {
            write!(f, " {}", value)?;
        }
        Ok(())
""", """        let (width, height) = self.size();
        write!(f, "{width}x{height}")?;
        self.values().try_for_each(|value| write!(f, " {value}"))
"""),
    (IT + "grid/grid_view.rs", """        let start_x = self.start % self.width;
        let start_y = self.start / self.width;
        Index2D::new(start_x, start_y, self.width)
""", """        let y = self.start / self.width;
        Index2D::new(self.start - y * self.width, y, self.width)
"""),
    (IT + "editing/basic_edit.rs", """        let end_offset = Offset(position.offset.0 + values.len());
        (
            vec![BasicEdit::Row(RowEdit {
                edit_type: EditType::Insert,
                position: position.to_minimal(),
                values,
            })],
            MinimalInputRowPosition {
                row_indices: position.row_indices().clone(),
                offset: end_offset,
            },
        )
""", """        let start = position.to_minimal();
        let mut end = start.clone();
        end.offset.0 += values.len();
        let edit = RowEdit {
            edit_type: EditType::Insert,
            position: start,
            values,
        };
        (vec![edit.into()], end)
"""),
    (IT + "editing/basic_edit.rs", """        (
            vec![BasicEdit::Row(RowEdit {
                edit_type: EditType::Delete,
                position: range.left_position().to_minimal(),
                values: range.values().to_vec(),
            })],
            MinimalInputRowPosition {
                row_indices: range.row_indices().clone(),
                offset: range.left_offset(),
            },
        )
""", """        let position = MinimalInputRowPosition {
            row_indices: range.row_indices().clone(),
            offset: range.left_offset(),
        };
        let row = range.row_focus.row();
        let values = row
            .values
            .iter()
            .skip(range.left_offset().0)
            .take(range.len())
            .cloned()
            .collect();
        let edit = RowEdit {
            edit_type: EditType::Delete,
            position: position.clone(),
            values,
        };
        (Vec::from([BasicEdit::from(edit)]), position)
"""),
    (IT + "row.rs", """        self.0.starts_with(&other.0)
""", """        self.0.len() >= other.0.len() && self.0[..other.0.len()] == other.0[..]
"""),
    (IT + "node.rs", """            InputNode::Container(_, rows) => rows
                .get_mut(Index2D::from_index(index, rows))
                .expect("Invalid row index"),
            InputNode::Symbol(_) => panic!("Can't get row of symbol"),
""", """            InputNode::Symbol(_) => unreachable!("Can't get row of symbol"),
            InputNode::Container(_, rows) => {
                let xy = Index2D::from_index(index, rows);
                match rows.get_mut(xy) {
                    Some(row) => row,
                    None => panic!("Invalid row index"),
                }
            }
"""),
]

# ---- batch d: caret, parser and serialization ----
PA = "aftermath-core/parser/src/"
SE = "aftermath-core/serialization/src/lib.rs"
B["d"] = [
    (PA + "autocomplete.rs", """    haystack
        .char_indices()
        .map(|(index, _)| index)
        .filter(|&index| haystack[index..].starts_with(needle))
        .collect()
""", """    let mut found = Vec::new();
    for (index, _) in haystack.char_indices() {
        let (_, rest) = haystack.split_at(index);
        if rest.starts_with(needle) {
            found.push(index);
        }
    }
    found
"""),
    (PA + "autocomplete.rs", """            let mut input_reverse = input.iter().rev().skip(symbol_count);
            while let Some(InputNode::Symbol(symbol)) = input_reverse.next() {
                if self.parser[0..parser_current_index].ends_with(symbol) {
                    // Match
                    parser_current_index -= symbol.len();
                    symbol_count += 1;
                } else {
                    // Not a match
                    break;
                }
            }
""", """            for node in input[..input.len() - 1].iter().rev() {
                let symbol = match node {
                    InputNode::Symbol(symbol) => symbol,
                    InputNode::Container(_, _) => break,
                };
                match self.parser[..parser_current_index].strip_suffix(symbol.as_str()) {
                    Some(rest) => {
                        parser_current_index = rest.len();
                        symbol_count += 1;
                    }
                    None => break,
                }
            }
"""),
    (PA + "autocomplete.rs", """            if parser_current_index == 0 {
                if symbol_count < min_rule_match_length {
                    continue;
                }

                // Matched the whole parser
                matches""", """            let spelled = parser_current_index == 0;
            if spelled && symbol_count >= min_rule_match_length {
                matches"""),
    (CT + "caret.rs", """        if shared_range.len() != 1 {
            return CaretSelection::Row(shared_range);
        }

        // Test for grid selection
        let selected_element = shared_range.row_focus.node_at(shared_range.left_offset().0);

        let is_grid_selected = selected_element.map(|node| node.has_resizable_grid()) == Some(true);
        if !is_grid_selected {
            return CaretSelection::Row(shared_range);
        }
""", """        let left = shared_range.left_offset();
        let is_grid_selected = shared_range.len() == 1
            && match shared_range.row_focus.node_at(left.0) {
                Some(node) => node.has_resizable_grid(),
                None => false,
            };
        if !is_grid_selected {
            return CaretSelection::Row(shared_range);
        }
"""),
    (CT + "caret.rs", """        let start_row_index = start.row_indices().at(shared_range.row_indices().len());
        let end_row_index = end.row_indices().at(shared_range.row_indices().len());

        match (start_row_index, end_row_index) {
            (Some(start_row_index), Some(end_row_index)) => {
""", """        let depth = shared_range.row_indices().len();
        let both = start.row_indices().at(depth).zip(end.row_indices().at(depth));

        match both {
            Some((start_row_index, end_row_index)) => {
"""),
    (CT + "caret.rs", """            (_, _) => CaretSelection::Row(shared_range),
        }
    }
}
""", """            None => CaretSelection::Row(shared_range),
        }
    }
}
"""),
    (CT + "math_editor.rs", """        matches.sort();

        let selected_index = self
            .current_autocomplete
            .take()
            .and_then(|last_rule| matches.iter().position(|v| v.rule == &last_rule))
            .unwrap_or(0);

        self.current_autocomplete = matches.get(selected_index).map(|v| v.rule.clone());
""", """        matches.sort_by(|a, b| a.cmp(b));

        let mut selected_index = 0;
        if let Some(last_rule) = &self.current_autocomplete {
            for (index, candidate) in matches.iter().enumerate() {
                if candidate.rule == last_rule {
                    selected_index = index;
                    break;
                }
            }
        }

        self.current_autocomplete = Some(matches[selected_index].rule.clone());
"""),
    (CT + "math_editor.rs", """        if !accept {
            return None;
        }
        let autocomplete = self.get_autocomplete()?;
        let selected_autocomplete = autocomplete.get_selected();
        let range = autocomplete.get_caret_range(selected_autocomplete);
        let values = selected_autocomplete.rule.result.to_vec();
        self.splice_at_range(range, values);
        Some(())
""", """        if accept {
            let (range, values) = {
                let autocomplete = self.get_autocomplete()?;
                let chosen = autocomplete.get_selected();
                (autocomplete.get_caret_range(chosen), chosen.rule.result.clone())
            };
            self.splice_at_range(range, values);
            Some(())
        } else {
            None
        }
"""),
    (CT + "math_editor.rs", """        let selected_nodes = match &selection {
            CaretSelection::Row(range) => range.values(),
            CaretSelection::Grid(_range) => {
                // Grid copying needs to be implemented
                // For example, we could construct a new, smaller grid and copy that node
                todo!()
            }
        };
        serialize_input_nodes(selected_nodes, data_type)
""", """        if let CaretSelection::Row(range) = &selection {
            serialize_input_nodes(range.values(), data_type)
        } else {
            todo!()
        }
"""),
    (CT + "autocomplete.rs", """            VerticalDirection::Up => {
                if self.selected_index > 0 {
                    self.selected_index -= 1;
                }
            }
            VerticalDirection::Down => {
                if self.selected_index < self.matches.len() - 1 {
                    self.selected_index += 1;
                }
            }
""", """            VerticalDirection::Up => self.selected_index = self.selected_index.saturating_sub(1),
            VerticalDirection::Down => {
                self.selected_index = (self.selected_index + 1).min(self.matches.len() - 1)
            }
"""),
    (CT + "autocomplete.rs", """        let selected = self.get_selected();
        if !selected.is_complete_match() {
            return Default::default();
        }
        let caret_range = self.get_caret_range(selected);
        AutocorrectActionBuilder {
            autocorrect: Some(AutocorrectAction {
                rule: selected.rule.clone(),
                caret_range,
            }),
        }
""", """        let selected = &self.matches[self.selected_index];
        let autocorrect = selected.is_complete_match().then(|| AutocorrectAction {
            rule: selected.rule.clone(),
            caret_range: self.get_caret_range(selected),
        });
        AutocorrectActionBuilder { autocorrect }
"""),
    (CT + "editor_action_builder.rs", """        let edit = CaretEdit {
            caret_before: self.caret_before,
            caret_after,
            edits: self.edits,
        };

        if !edit.edits.is_empty() {
            self.editor.input.apply_edits(&edit.edits);
            self.editor.parsed = None;
            self.editor.undo_stack.push(edit.clone().into());
        }
        self.editor.caret = edit.caret_after.clone();
        edit
""", """        let EditorActionBuilder { editor, caret_before, edits, .. } = self;
        editor.caret = caret_after.clone();
        let edit = CaretEdit { caret_before, caret_after, edits };
        if edit.edits.is_empty() {
            return edit;
        }
        for one in edit.edits.iter() {
            editor.input.apply_edit(one);
        }
        editor.undo_stack.push(edit.clone().into());
        editor.parsed.take();
        edit
"""),
    (CT + "undo_redo_manager.rs", """        let action = self.undo_stack.pop()?;
        let inverse_action = action.inverse();
        self.redo_stack.push(action);
        Some(inverse_action)
""", """        self.undo_stack.pop().map(|action| {
            let inverse_action = action.inverse();
            self.redo_stack.push(action);
            inverse_action
        })
"""),
    (CT + "undo_redo_manager.rs", """        self.redo_stack = Vec::new();
""", """        self.redo_stack.clear();
"""),
    (CT + "primitive/movement.rs", """                let offset = if direction == VerticalDirection::Up {
                    Offset(new_row.len())
                } else {
                    Offset(0)
                };
                Some(InputRowPosition::new(new_row, offset))
""", """                let offset = match direction {
                    VerticalDirection::Up => new_row.len(),
                    VerticalDirection::Down => 0,
                };
                Some(InputRowPosition::new(new_row, Offset(offset)))
"""),
    (CT + "primitive/movement.rs", """        let new_caret = self.move_caret_internal(&caret, direction, caret_viewport_position);
        match new_caret {
            Some(new_caret) => Some(new_caret),
            None => {
                // Collapsing the caret counts as a movement
                if !is_collapsed {
                    Some(caret)
                } else {
                    None
                }
            }
        }
""", """        self.move_caret_internal(&caret, direction, caret_viewport_position)
            .or(if is_collapsed { None } else { Some(caret) })
"""),
    (CT + "primitive/primitive_edit.rs", """        let values = node_focus
            .node()
            .grid()
            .expect("Expected a grid")
            .values()
            .flat_map(|row| row.values.iter().cloned())
            .collect();
""", """        let mut values = Vec::new();
        for row in node_focus.node().grid().expect("Expected a grid").values() {
            values.extend(row.values.iter().cloned());
        }
"""),
    (CT + "primitive/primitive_edit.rs", """        MinimalInputRowPosition {
            row_indices: range.row_indices,
            offset: if range.start < range.end {
                range.end
            } else {
                range.start
            },
        },
""", """        MinimalInputRowPosition {
            row_indices: range.row_indices,
            offset: range.start.max(range.end),
        },
"""),
    (SE, """    match data_type {
        SerializedDataType::JsonInputTree => Ok(serde_json::to_string(data)?),
    }
""", """    let text = match data_type {
        SerializedDataType::JsonInputTree => serde_json::to_string(data),
    };
    text.map_err(SerializationError::JsonInputTree)
"""),
]

# ---- batch k: the caret crate ------------------------------------------------------------------------------
B["k"] = []


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def main():
    args = sys.argv[1:]
    ids = None
    for a in list(args):
        if a.startswith("--ids="):
            ids = a[6:].split(",")
            args.remove(a)
    man = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
    base = {}
    assert not sh("git", "-C", "/repo", "status", "--porcelain").stdout.strip()
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for b in args or sorted(B):
        try:
            for f, old, new in B[b]:
                p = os.path.join("/repo", f)
                s = open(p).read()
                if s.count(old) < 1:
                    print(b, "does not apply:", f, old[:200])
                    continue
                open(p, "w").write(s.replace(old, new, 1))
            r = sh("bash", "/opt/vp/build.sh", cwd="/repo")
            if r.returncode:
                print(b, "BUILD FAILS", (r.stdout + r.stderr)[-3000:])
                continue
            sh("bash", "/opt/vp/test.sh", "/tmp/ref_out.json", cwd="/repo")
            o = json.load(open("/tmp/ref_out.json"))
            if not stable <= set(o.get("passed", o.get("pass", []))):
                print(b, "TESTS FAIL")
                continue
            for c in ids or [c["property"] for c in man["checks"]]:
                r = sh("python3", "check.py", c, cwd=ROOT)
                print(b, c, "exit", r.returncode, r.stdout.strip()[:2500], r.stderr[-300:])
                sys.stdout.flush()
        finally:
            sh("git", "-C", "/repo", "checkout", "--", ".")


if __name__ == "__main__":
    main()
