P = 'thermal_parser/src/'; R = 'thermal_renderer/src/'
BUGS = []
def bug(id, property, edits, needs, what_it_breaks, demo): BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, what_it_breaks=what_it_breaks, demo=demo))
bug('p03-bit-image-width', 'P03', [(P + 'commands/bit_image.rs', 'self.width = p1 + p2 * 256;', 'self.width = p1 + (p2 & 0x03) * 256;')],
 'ESC * with a column count of 1024 or more (nH above 3)', 'the command takes fewer payload bytes than its header announces, the rest is printed as text',
 '''fn main() {
    let mut s = vec![27, b'*', 0, 1, 4];
    s.extend(vec![b'A'; 1025]);
    s.push(b'Z');
    let c = thermal_parser::parse_esc_pos(&s);
    assert_eq!(c.len(), 4);
    assert_eq!(c[1].data.len(), 1025);
    assert_eq!(c[2].data, vec![b'Z']);
    let _ = run(&[]);
}''')
bug('p04-default-state', 'P04', [(P + 'parser.rs', '        self.current_command_is_default = false;\n\n        let mut commands', '\n        let mut commands')],
 'a parser that is used twice, first with a stream that ends in text, then with one that starts with text', 'the leading text of the second stream is lost',
 '''use thermal_parser::{command_sets, parser::Parser};
fn main() {
    let mut p = Parser::new(command_sets::esc_pos::new());
    let a = p.parse_bytes(&b"one".to_vec());
    let b = p.parse_bytes(&b"two".to_vec());
    assert_eq!(a.len(), 3);
    assert_eq!(b.len(), 3);
    assert_eq!(b[1].data, b"two".to_vec());
    let _ = run(&[]);
}''')
bug('p05-utf8-guess', 'P05', [(P + 'decoder/mod.rs', '        if self.use_utf8_table {\n', '        //Three byte sequences are never meant as single characters\n        let looks_like_utf8 = std::str::from_utf8(bytes).map_or(false, |s| s.chars().any(|c| c > \'\\u{7ff}\'));\n        if self.use_utf8_table || looks_like_utf8 {\n')],
 'three neighbouring text bytes of a code page that happen to form a UTF-8 sequence', 'they are decoded as one UTF-8 character although a code page is selected',
 '''fn main() {
    let (r, _) = run(&[27, b't', 0, 0xe2, 0x82, 0xac]);
    let s: String = r.chars.iter().map(|c| c.0).collect();
    assert_eq!(s, "Γé¼");
}''')
bug('p06-print-mode-underline', 'P06', [(P + 'commands/set_print_mode.rs', '''        context.text.underline = if underline {
            TextUnderline::On''', '''        context.text.underline = if underline {
            match context.text.underline {
                TextUnderline::Double => TextUnderline::Double,
                _ => TextUnderline::On,
            }''')],
 'ESC - 2 followed by ESC ! with the underline bit set', 'the print mode no longer selects the one dot underline it documents: the state before decides',
 '''fn main() {
    let c = ctx(&[27, b'-', 2, 27, b'!', 0x80]);
    assert!(matches!(c.text.underline, TextUnderline::On));
}
use thermal_parser::context::*;''')
bug('p07-feed-lines-sign', 'P07', [(P + 'commands/print_and_feed_lines.rs', 'Some(vec![DeviceCommand::FeedLine(n as i16)])', 'Some(vec![DeviceCommand::FeedLine(n as i8 as i16)])')],
 'ESC d with more than 127 lines', 'the paper is fed backwards',
 '''fn main() {
    let a = ctx(&[27, b'd', 127]).graphics.render_area.y;
    let b = ctx(&[27, b'd', 128]).graphics.render_area.y;
    assert_eq!(b, a + 24);
}''')
bug('p08-tabs-survive-reset', 'P08', [(P + 'context.rs', '            self.text = default.text.clone();\n', '            let tabs = mem::take(&mut self.text.tabs);\n            self.text = default.text.clone();\n            self.text.tabs = tabs;\n')],
 'tab stops set with ESC D before ESC @', 'the tab stops are not restored by ESC @',
 '''fn main() {
    let c = ctx(&[27, b'D', 3, 1, 27, b'@']);
    assert_eq!(c.text.tabs, vec![8; 32]);
}''')
bug('p09-scale-axis', 'P09', [(P + 'graphics.rs', 'let new_y = y * scale_y as u32 + dy as u32;', 'let new_y = y * scale_x.min(scale_y) as u32 + dy as u32;')],
 'an image that is magnified more in one direction than in the other and has several rows', 'rows are printed over each other',
 '''fn main() {
    let (r, _) = run(&[29, b'v', b'0', 2, 1, 0, 2, 0, 0x80, 0x40]);
    let i = &r.images[0];
    assert_eq!((i.w, i.h), (8, 4));
    let on: Vec<usize> = (0..32).filter(|k| i.pixels[*k].a > 0).collect();
    assert_eq!(on, vec![0, 8, 17, 25]);
}''')
bug('p10-delete-by-first-code', 'P10', [(P + 'subcommands/gs_graphics/clear_nv_graphic.rs', 'context.graphics.stored_graphics.remove(&img_ref);', 'context.graphics.stored_graphics.retain(|k, _| {\n                k.storage != img_ref.storage || k.kc1 != img_ref.kc1\n            });')],
 'two NV graphics whose key codes share the first byte, one of them deleted', 'the other one is deleted too',
 '''fn main() {
    let mut s = vec![];
    for k in [1u8, 2] { s.extend([29, b'(', b'L', 12, 0, 48, 67, 48, b'A', k, 1, 8, 0, 1, 0, 49, 0xff]); }
    s.extend([29, b'(', b'L', 4, 0, 48, 66, b'A', 1]);
    s.extend([29, b'(', b'L', 6, 0, 48, 69, b'A', 2, 1, 1]);
    let (r, _) = run(&s);
    assert_eq!(r.images.len(), 1);
}''')
bug('p11-manufacturer-300', 'P11', [(P + 'utils/barcodes/upce.rs', 'if manu[2..] == [0, 0, 0] || manu[2..] == [1, 0, 0] || manu[2..] == [2, 0, 0] {', 'if manu[3..] == [0, 0] && manu[2] <= 3 {')],
 'a UPC-A number whose manufacturer code ends in 300', 'it is compressed to the UPC-E code of another number',
 '''fn main() {
    // 0 12300 00045 has the zero suppressed form 0 123453 1, whose modules are
    let want = "101011001100110110111101001110101100010111101010101";
    let mut s = vec![29, b'k', 66, 11];
    s.extend_from_slice(b"01230000045");
    let r = run(&s).0;
    let mut got = vec![b'0'; 51];
    for b in &r.bars[0] { got[((b.0 - r.bars[0][0].0) / 3) as usize] = b'1'; }
    assert_eq!(String::from_utf8(got).unwrap(), want);
}''')
bug('p12-codabar-length', 'P12', [(P + 'commands/barcode.rs', 'BarcodeType::Nw7Codabar | BarcodeType::Itf => length > 2,', 'BarcodeType::Nw7Codabar | BarcodeType::Itf => length > 3,')],
 'a Codabar symbol with a single data character', 'it is rejected although it can be encoded',
 '''fn main() {
    let (r, o) = run(&[29, b'k', 71, 3, b'A', b'1', b'A']);
    assert_eq!(o.errors.len(), 0);
    assert_eq!(r.bars.len(), 1);
}''')
bug('p16-last-character', 'P16', [(P + 'text.rs', 'while index < chars.len() {', 'while index + 1 < chars.len() {')],
 'a word exactly one character longer than whole lines', 'its last character is not printed',
 '''fn main() {
    let (r, _) = run(&[b'x'; 51]);
    assert_eq!(r.chars.len(), 51);
}''')
bug('p17-line-spacing-early', 'P17', [(P + 'commands/set_line_spacing.rs', 'CommandType::Context,', 'CommandType::TextStyle,')],
 'a line feed that is still buffered when ESC 3 arrives', 'the line feed advances by the spacing that was set after it',
 '''fn main() {
    let (r, _) = run(b"a\\n\\x1b3\\xc8b");
    assert_eq!(r.chars[1].2 - r.chars[0].2, 24);
}''')
bug('p02-empty-image', 'P02', [(P + 'commands/bit_image.rs', '''        let mut data = self.params.clone();
        let commands = command.commands.to_vec();
''', '''        let commands = command.commands.to_vec();
        //There is nothing to write for images that hold no data
        if self.size == 0 {
            return (commands, vec![]);
        }
        let mut data = self.params.clone();
''')],
 'a bit image without data (zero columns or cut off in its header)', 'its parameter bytes are missing from the bytes the command reports',
 '''fn main() {
    let c = thermal_parser::parse_esc_pos(&vec![27, b'*', 0, 0, 0, b'A']);
    let (o, d) = c[1].handler.get_command_bytes(&c[1]);
    assert_eq!([o, d].concat(), vec![27, b'*', 0, 0, 0]);
    let _ = run(&[]);
}''')
bug('p01-raster-size', 'P01', [(P + 'commands/raster_bit_image.rs', '''            self.width = xl + xh * 256;
            self.height = yl + yh * 256;
            self.capacity = self.width * self.height;
            self.width = self.width * 8;
''', '''            self.width = (xl + xh * 256) * 8;
            self.height = yl + yh * 256;
            self.capacity = self.width * self.height / 8;
''')],
 'GS v 0 with a width of more than 8191 bytes and a height of more than 8191 dots', 'the size overflows and the parser panics',
 '''fn main() {
    let c = thermal_parser::parse_esc_pos(&vec![29, b'v', b'0', 0, 0xff, 0xff, 0xff, 0xff, 1]);
    assert_eq!(c.len(), 3);
    let _ = run(&[]);
}''')
R = 'thermal_renderer/src/'
bug('p13-wide-decimal', 'P13', [(P + 'thermal_file.rs', 'token.parse::<u8>();', 'token.trim_start_matches(|c: char| !c.is_ascii_digit()).parse::<u8>();')],
 'a bare word that ends with digits', 'it contributes a single byte instead of its characters',
 '''fn main() {
    assert_eq!(thermal_parser::thermal_file::parse_str("ESC T2 7"), vec![27, b'T', b'2', 7]);
    let _ = run(&[]);
}''')
bug('p14-digit-opcode', 'P14', [(P + 'thermal_file.rs', '''        let str = vec![*byte];
''', '''        //Letters and digits read better without quotes
        if byte.is_ascii_alphanumeric() {
            return (*byte as char).to_string();
        }
        let str = vec![*byte];
''')],
 'a command whose second byte is an ASCII digit (ESC 2, ESC 3)', 'reading the converted source gives another byte',
 '''fn main() {
    let b = vec![27, b'E', 1, 27, b'3', 40, b'a', 27, b'2'];
    let t = thermal_parser::thermal_file::cmds_to_thermal(&thermal_parser::parse_esc_pos(&b));
    assert_eq!(thermal_parser::thermal_file::parse_str(&t), b);
    let _ = run(&[]);
}''')
PAGE = '''// One page 16 x 16 with a solid 8 x 8 image, printed on the rows from 48 on: which of the rows are dark
fn dark(bytes: &[u8]) -> Vec<u32> {
    let o = thermal_renderer::image_renderer::ImageRenderer::render(&bytes.to_vec(), None);
    let p = &o.output[0];
    (0..p.height).filter(|y| (0..p.width).any(|x| p.bytes[((y * p.width + x) * 3) as usize] == 0)).collect()
}
const IMG: [u8; 16] = [29, b'v', b'0', 0, 1, 0, 8, 0, 255, 255, 255, 255, 255, 255, 255, 255];
fn columns(bytes: &[u8]) -> Vec<u32> {
    let o = thermal_renderer::image_renderer::ImageRenderer::render(&bytes.to_vec(), None);
    let p = &o.output[0];
    (0..p.width).filter(|x| (0..p.height).any(|y| p.bytes[((y * p.width + x) * 3) as usize] == 0)).collect()
}
fn cat(p: &[&[u8]]) -> Vec<u8> { p.concat() }
'''
bug('p15-page-turned-back', 'P15', [(R + 'image_renderer/mod.rs', '''        match rotation_to_previous {
            Rotation::R90 => self.page_image.rotate_90(),
            Rotation::R180 => self.page_image.rotate_180(),
            Rotation::R270 => self.page_image.rotate_270(),''', '''        match rotation_to_previous {
            Rotation::R90 => self.page_image.rotate_270(),
            Rotation::R180 => self.page_image.rotate_180(),
            Rotation::R270 => self.page_image.rotate_90(),''')],
 'a page in a sideways print direction that is printed twice (ESC FF, ESC FF)', 'the second copy is upside down',
 PAGE + '''fn main() {
    let d = dark(&cat(&[&[27, b'L', 27, b'W', 0, 0, 0, 0, 16, 0, 16, 0, 27, b'T', 1], &IMG, &[27, 12, 27, 12]]));
    let (a, b): (Vec<u32>, Vec<u32>) = (d[..8].to_vec(), d[8..].to_vec());
    assert_eq!(b, a.iter().map(|y| y + 16).collect::<Vec<u32>>());
    let _ = run(&[]);
}''')
bug('p15-page-kept', 'P15', [(R + 'image_renderer/mod.rs', '''    fn page_begin(&mut self, _context: &mut Context) {
        self.page_image.set_width(0);
    }''', '''    fn page_begin(&mut self, _context: &mut Context) {
        self.page_image.empty();
    }''')],
 'a second page of the same width whose print direction is sideways, after a wider page', 'the new page keeps the width of the page before it',
 PAGE + '''fn main() {
    // The second page is 16 dots wide, the first one was as wide as the paper when it began
    let d = columns(&cat(&[&[27, b'L', 27, b'W', 0, 0, 0, 0, 200, 0, 16, 0, 27, b'W', 0, 0, 0, 0, 16, 0, 16, 0, 27, b'S', 27, b'L'], &IMG, &[27, b'T', 3], &IMG, &[27, 12, 27, b'S']]));
    assert!(d.iter().all(|x| *x < 60), "{:?}", d);
    let _ = run(&[]);
}''')
bug('p18-bottom-left-area', 'P18', [(P + 'context.rs', '''        r.x = p.w.saturating_sub(l.y + l.h);
        r.y = l.x;''', '''        r.x = p.w.saturating_sub(l.h);
        r.y = l.x;''')],
 'print direction bottom to top with an area that does not start at the top of the page', 'what is printed lands outside the area',
 '''fn main() {
    // The page is 30 x 48; from bottom to top the area of 20 dots ends 8 dots before the right edge
    let (r, _) = run(&[27, b'L', 27, b'W', 0, 0, 8, 0, 20, 0, 40, 0, 27, b'T', 1, 27, b'$', 0, 0, b'x', 27, 12, 27, b'S']);
    let a = r.areas.last().unwrap().1;
    assert_eq!(a, 48);
    assert!(r.chars.iter().all(|c| c.1 < 40));
    assert_eq!(r.end.unwrap().page_mode.page_area.x, 0);
}''')
bug('p19-odd-margin', 'P19', [(R + 'image_renderer/thermal_image.rs', 'let right = new_width - (left + old_width);', 'let right = left;')],
 'growing a canvas to a width an odd number of dots greater', 'rows are one dot short and the picture is slanted',
 '''use thermal_renderer::image_renderer::thermal_image::ThermalImage;
fn main() {
    let mut i = ThermalImage::new(3);
    i.draw_rect(1, 0, 1, 4, &thermal_parser::graphics::RGBA { r: 0, g: 0, b: 0, a: 255 }, false);
    i.expand_to_width(8);
    let (w, h, p) = i.copy();
    assert_eq!((w, h), (8, 4));
    for y in 0..4 { assert_eq!(p[y * 8 + 3].r, 0); }
    let _ = run(&[]);
}''')
bug('p19-crop-height', 'P19', [(R + 'image_renderer/thermal_image.rs', '''                max_height,
                !self.auto_grow,''', '''                max_height,
                needs_crop_w || needs_crop_h,''')],
 'pixels that reach over the right edge and below the end of a growing canvas', 'the rows below the end are lost',
 '''use thermal_renderer::image_renderer::thermal_image::ThermalImage;
fn main() {
    let mut i = ThermalImage::new(3);
    i.expand_to_height(1);
    i.draw_rect(2, 0, 2, 4, &thermal_parser::graphics::RGBA { r: 0, g: 0, b: 0, a: 255 }, false);
    assert_eq!(i.get_height(), 4);
    let _ = run(&[]);
}''')
bug('p20-text-attribute', 'P20', [(R + 'html_renderer/thermal_html.rs', '''            "<span style='left: {}px; top: {}px' class='{}'>{}</span>",
            x_offset + x,
            baseline_offset,
            class_list.join(" "),''', '''            "<span style='left: {}px; top: {}px' class='{}' title='{}'>{}</span>",
            x_offset + x,
            baseline_offset,
            class_list.join(" "),
            text.text.replace('&', "&amp;").replace('<', "&lt;"),''')],
 'printed text that holds an apostrophe', 'it ends the attribute and can add others',
 '''fn main() {
    let o = thermal_renderer::html_renderer::HtmlRenderer::render(&b"a' onclick='b".to_vec(), None);
    let c = &o.output[0].content;
    let s = c.rfind("<span").unwrap();
    assert!(!c[s..s + c[s..].find('>').unwrap()].contains("onclick='"));
    let _ = run(&[]);
}''')
QRS = '''fn qr(model: u8, ec: u8, size: u8, n: usize) -> Vec<u8> {
    let mut b = vec![29, b'(', b'k', 4, 0, 49, 65, model, 0, 29, b'(', b'k', 3, 0, 49, 67, size, 29, b'(', b'k', 3, 0, 49, 69, ec];
    b.extend_from_slice(&[29, b'(', b'k', ((n + 3) & 255) as u8, ((n + 3) >> 8) as u8, 49, 80, 48]);
    b.extend(vec![b'a'; n]);
    b.extend_from_slice(&[29, b'(', b'k', 3, 0, 49, 81, 48]);
    b
}
'''
bug('p21-model1-versions', 'P21', [(P + 'subcommands/gs_code2d/qr_store.rs', 'QrModel::Model1 => 14,', 'QrModel::Model1 => 13,')],
 'a model 1 QR code with data that need version 14', 'an error is reported although the data fit',
 QRS + '''fn main() {
    assert_eq!(run(&qr(49, 48, 2, 458)).1.errors.len(), 0);
    assert_eq!(run(&qr(49, 48, 2, 459)).1.errors.len(), 1);
}''')
bug('p21-justified', 'P21', [(R + 'renderer.rs', 'context.calculate_justification(code_2d.width as u32 * code_2d.point_width)', 'context.calculate_justification(code_2d.width as u32)')],
 'a centred or right justified QR code with modules larger than a dot', 'it is printed too far to the right',
 QRS + '''fn main() {
    let b = [&[27, b'a', 2][..], &qr(50, 48, 4, 5)[..]].concat();
    let (r, _) = run(&b);
    let x: Vec<u32> = r.bars[0].iter().map(|b| b.0).collect();
    assert_eq!(x.iter().max().unwrap() - x.iter().min().unwrap(), 80);
}''')
bug('p22-row-height', 'P22', [(R + 'html_renderer/thermal_html.rs', 'height = height.max(span.character_height);', 'height = span.character_height;')],
 'a line whose last part is smaller than a part before it', 'its row is too low and everything after it moves up',
 '''fn main() {
    let o = thermal_renderer::html_renderer::HtmlRenderer::render(&b"\\x1d!\\x11A\\x1d!\\x00b\\n".to_vec(), None);
    assert!(o.output[0].content.contains("<p style='height: 48px"));
    let _ = run(&[]);
}''')
bug('p22-stretch-class', 'P22', [(R + 'html_renderer/thermal_html.rs', 'if !str_w.is_empty() || !str_h.is_empty() {', 'if !str_w.is_empty() && !str_h.is_empty() {')],
 'text that is magnified in one direction only', 'it is not stretched from its corner and lands elsewhere',
 '''fn main() {
    let o = thermal_renderer::html_renderer::HtmlRenderer::render(&b"\\x1d!\\x10A\\n".to_vec(), None);
    assert!(o.output[0].content.contains("class='w2 str'"));
    let _ = run(&[]);
}''')
bug('p23-repeated-error', 'P23', [(R + 'renderer.rs', '        self.error_buffer.push(RenderError { kind, description });', '        //The same problem again is no news\n        let known = self.error_buffer.last().map(|e| e.description == description);\n        if known != Some(true) {\n            self.error_buffer.push(RenderError { kind, description });\n        }')],
 'the same command that fails two times in a row', 'the second failure is not reported',
 '''fn main() {
    let bad = [29, b'k', 4, b'!', 0];
    assert_eq!(run(&bad).1.errors.len(), 1);
    assert_eq!(run(&[&bad[..], &bad[..]].concat()).1.errors.len(), 2);
}''')
bug('p24-strike-magnified', 'P24', [(R + 'image_renderer/thermal_image.rs', '(dimensions.y + y_offset) + (span.character_height as f32 / 2.5) as u32', '(dimensions.y + y_offset) + (span.base_character_height as f32 / 2.5) as u32')],
 'struck through text that is magnified vertically', 'the line runs above the letters instead of through them',
 '''fn main() {
    let row = |n: u8| {
        let o = thermal_renderer::image_renderer::ImageRenderer::render(&vec![27, b'G', 1, 29, b'!', n, b' ', b' ', 10], None);
        let i = &o.output[0];
        i.bytes.iter().position(|b| *b < 128).unwrap() / 3 / i.width as usize
    };
    //Four times as high: the line moves from a middle of 12 to one of 48
    assert!(row(3) >= row(0) + 20);
    let _ = run(&[]);
}''')
bug('p24-bold-magnified', 'P24', [(R + 'image_renderer/thermal_image.rs', '        if span.bold {\n', '        //Large characters are bold enough\n        if span.bold && span.stretch_width < 2.0 {\n')],
 'bold text of double width', 'it is drawn in the regular face',
 '''fn main() {
    let shot = |b: &[u8]| thermal_renderer::image_renderer::ImageRenderer::render(&b.to_vec(), None).output.remove(0).bytes;
    assert!(shot(b"\\x1d!\\x11Abc\\n") != shot(b"\\x1bE\\x01\\x1d!\\x11Abc\\n"));
    let _ = run(&[]);
}''')
bug('p17-image-advance', 'P17', [(R + 'renderer.rs', 'self.context.offset_x(image.w);', 'self.context.offset_x(image.w.div_ceil(8) * 8);')],
 'a bit image within a line whose width is no multiple of eight, with something after it', 'what follows stands too far to the right',
 '''fn main() {
    let mut s = vec![27, b'*', 33, 5, 0];
    s.extend(vec![0xff; 15]);
    s.push(b'A');
    assert_eq!(run(&s).0.chars[0].1, 5);
}''')
