#![allow(dead_code, unused_imports)]
use parquet2::compression::CompressionOptions;
use parquet2::encoding::Encoding;
use parquet2::error::{Error, Result};
use parquet2::metadata::{Descriptor, FileMetaData, SchemaDescriptor};
use parquet2::page::{CompressedPage, DataPage, DataPageHeader, DataPageHeaderV1, DataPageHeaderV2, DictPage, Page};
use parquet2::schema::types::{ParquetType, PhysicalType};
use parquet2::statistics::{serialize_statistics, PrimitiveStatistics, Statistics};
use parquet2::write::{Compressor, DynIter, DynStreamingIterator, FileStreamer, FileWriter, Version, WriteOptions};
use std::io::{Cursor, Read, Seek, SeekFrom, Write};
use std::sync::Arc;

/// a required INT32 schema with these column names
fn schema(cols: &[&str]) -> SchemaDescriptor {
    SchemaDescriptor::new(
        "schema".to_string(),
        cols.iter()
            .map(|c| match ParquetType::from_physical(c.to_string(), PhysicalType::Int32) {
                ParquetType::PrimitiveType(mut p) => {
                    p.field_info.repetition = parquet2::schema::Repetition::Required;
                    ParquetType::PrimitiveType(p)
                }
                x => x,
            })
            .collect(),
    )
}

fn bytes_of(values: &[i32]) -> Vec<u8> {
    values.iter().flat_map(|x| x.to_le_bytes()).collect()
}

fn stats(d: &Descriptor, values: &[i32]) -> parquet2::statistics::ParquetStatistics {
    serialize_statistics(&PrimitiveStatistics::<i32> {
        primitive_type: d.primitive_type.clone(),
        null_count: Some(0),
        distinct_count: None,
        min_value: values.iter().copied().min(),
        max_value: values.iter().copied().max(),
    })
}

/// a required plain v1 page
fn page(d: &Descriptor, values: &[i32]) -> Page {
    page_with(d, values, Some(stats(d, values)))
}

fn page_with(d: &Descriptor, values: &[i32], statistics: Option<parquet2::statistics::ParquetStatistics>) -> Page {
    let header = DataPageHeaderV1 {
        num_values: values.len() as i32,
        encoding: Encoding::Plain.into(),
        definition_level_encoding: Encoding::Rle.into(),
        repetition_level_encoding: Encoding::Rle.into(),
        statistics,
    };
    Page::Data(DataPage::new(DataPageHeader::V1(header), bytes_of(values), d.clone(), Some(values.len())))
}

fn chunk(pages: Vec<Page>, c: CompressionOptions) -> DynStreamingIterator<'static, CompressedPage, Error> {
    DynStreamingIterator::new(Compressor::new_from_vec(DynIter::new(pages.into_iter().map(Ok)), c, vec![]))
}

fn options() -> WriteOptions {
    WriteOptions { write_statistics: true, version: Version::V1 }
}

/// a file with one row group per element; each row group lists the pages of each column
fn write_file(names: &[&str], groups: Vec<Vec<Vec<Vec<i32>>>>, c: CompressionOptions) -> Result<Vec<u8>> {
    let s = schema(names);
    let ds: Vec<Descriptor> = s.columns().iter().map(|x| x.descriptor.clone()).collect();
    let mut w = FileWriter::new(Cursor::new(vec![]), s, options(), None);
    for g in groups {
        let cols: Vec<_> = g
            .into_iter()
            .zip(ds.iter())
            .map(|(pages, d)| Ok(chunk(pages.iter().map(|v| page(d, v)).collect(), c)))
            .collect();
        w.write(DynIter::new(cols.into_iter()))?;
    }
    w.end(None)?;
    Ok(w.into_inner().into_inner())
}

