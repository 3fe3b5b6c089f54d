#!/usr/bin/env python3
# Single source of the property texts; writes properties.jsonl
import json
P=[]
def p(id,title,st,over,q,why,files,mech,obs,state=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
TP='thermal_parser/src/'; TR='thermal_renderer/src/'
W='The tests parse/render a few hand-made sample files and check only that no error is reported; '

p('P01','Parsing is total and bracketed',
 'Parsing any byte sequence as ESC/POS returns normally (no panic, no arithmetic overflow, no endless loop). The returned command list starts with exactly one Begin Print and ends with exactly one End Print, and no command in between is either of those.',
 ['inputs'],'every byte stream up to the stated length bound, including truncated, unknown and nonsensical commands',
 W+'totality over all 256^n streams is out of reach of samples, and malformed length fields or streams cut mid-command are not sampled at all.',
 [TP+'parser.rs',TP+'command.rs',TP+'subcommands/mod.rs',TP+'commands/barcode.rs',TP+'commands/bit_image.rs'],
 [('byte dispatcher',TP+'parser.rs Parser::parse'),('subcommand header parsing',TP+'subcommands/mod.rs parse_meta')],
 ['thermal_parser::parse_esc_pos'])
p('P02','No byte of the stream is lost, invented or reordered',
 'For every byte stream, concatenating the opcode and data bytes that each parsed command reports about itself, in order, gives back exactly the parsed stream (the Begin/End Print markers contribute nothing).',
 ['inputs'],'every byte stream up to the stated length bound, including text, unknown prefixes, subcommands and streams cut anywhere',
 W+'nothing compares the bytes held by the parsed commands with the input.',
 [TP+'parser.rs',TP+'command.rs',TP+'subcommands/mod.rs',TP+'commands/*.rs'],
 [('current command / command buffer hand-over',TP+'parser.rs Parser::parse, emit_command'),('opcode and data bytes of a command','CommandHandler::get_command_bytes')],
 ['Command.handler.get_command_bytes'])
p('P03','Each command consumes exactly its documented parameter bytes',
 'A supported ESC/POS command is recognised as itself, carries exactly the opcode and the parameter/payload bytes its specification gives it (fixed counts, length fields, NUL-terminated or length-prefixed payloads) whatever their values, and the bytes after it are parsed as if they started a new stream; where the stream ends before the declared payload does, all that is left belongs to that command.',
 ['inputs'],'every supported opcode, every value of its parameter bytes (payload length within bounds), and any following bytes',
 W+'a command that takes one byte too many or too few only shows for particular parameter values and followers.',
 [TP+'command_sets/esc_pos.rs',TP+'commands/mod.rs',TP+'command.rs',TP+'subcommands/*',TP+'commands/barcode.rs',TP+'commands/bit_image.rs',TP+'commands/raster_bit_image.rs'],
 [('declared data kind per command',TP+'command.rs Command::push'),('length-carrying commands','CommandHandler::push implementations')],
 ['thermal_parser::parse_esc_pos'])
p('P04','Parsing depends only on the bytes given',
 'Parsing a stream with a parser that has already parsed other streams, or more than once, gives the same commands as a fresh parser.',
 ['inputs','histories'],'every pair of streams (first, second) up to the bound, including first streams cut in the middle of a command',
 W+'every test uses a fresh parser, so left-over partial-match state is never exercised.',
 [TP+'parser.rs'],[('state reset at end of stream',TP+'parser.rs Parser::parse_bytes')],['Parser::parse_bytes'])
p('P05','Text bytes decode through the selected code page and character set',
 'Every text byte is turned into exactly one character: the one its position has in the selected code page, with the national replacements of the selected international character set applied to the ASCII range; decoding a string is the concatenation of decoding its bytes, and printable ASCII not replaced by the national set is unchanged. With the UTF-8 table selected, text is decoded as UTF-8 instead.',
 ['inputs'],'every byte value, every code page and character set selection, every string up to the bound',
 W+'one or two encodings are exercised by samples and decoded text is never compared.',
 [TP+'decoder/*.rs',TP+'text.rs',TP+'commands/set_code_table.rs',TP+'commands/set_international_charset.rs'],
 [('code page tables',TP+'decoder/codepage_*.rs'),('national replacement tables',TP+'decoder/international.rs')],
 ['Codepage::decode','rendered text spans'])
p('P06','Style commands change exactly the documented setting',
 'Each text/print-style command (emphasis, underline, double strike, italic, invert, upside-down, smoothing, font, character size, print mode, justification, colour, character set, code table, barcode and 2D-symbol settings) sets exactly the documented setting to the documented value for each parameter byte and leaves all other settings unchanged, whatever the state before.',
 ['inputs','histories'],'every parameter byte value and every prior setting value reachable by the commands',
 W+'settings reached by a command are never inspected, and cross-talk between settings is invisible.',
 [TP+'commands/set_*.rs',TP+'subcommands/gs_code2d/*.rs',TP+'context.rs'],
 [('apply_context of each command',TP+'commands/set_*.rs')],['Context after applying the command'])
p('P07','Positioning and feed commands move by the documented amount',
 'Line feed, feed n units or lines (forward and back), absolute horizontal and vertical position, relative vertical position in page mode, motion-unit and cut commands move the print position by exactly the documented number of motion units or lines and change nothing else, never panic, never make a motion unit zero, never move the position before the start of the paper, and absolute positions stay inside the print area, in standard and page mode.',
 ['inputs','histories'],'every parameter value, every prior position and motion unit',
 W+'positions are never compared.',
 [TP+'context.rs',TP+'commands/print_and_*.rs',TP+'commands/set_*pos.rs',TP+'commands/set_motion_units.rs',TR+'renderer.rs'],
 [('x/y cursor arithmetic',TP+'context.rs Context::offset_*/set_*')],['Context positions, y passed to the output renderer'])
p('P08','ESC @ restores the power-on settings',
 'After any sequence of setting commands, the initialize command puts every text, barcode, 2D-code and graphics setting back to its value in a fresh printer, without moving the paper back and without erasing NV graphics (page mode is not covered).',
 ['inputs','histories'],'every sequence of setting commands up to the bound followed by ESC @',
 W+'no test looks at state after a reset.',
 [TP+'commands/initialize.rs',TP+'context.rs'],[('default snapshot',TP+'context.rs Context::new/reset')],['Context after ESC @'])
p('P09','Image data decodes bit for pixel',
 'For raster, column and bit-image data each dot of the decoded image is taken from exactly the documented bit, dots outside are absent, and magnification replicates each dot exactly; data whose length does not match the header yields a reported error, never a panic or a different image.',
 ['inputs'],'all image headers and payload bits within the size bound',
 W+'decoded pixels are never compared, only that decoding reports no error.',
 [TP+'graphics.rs',TP+'commands/bit_image.rs',TP+'commands/raster_bit_image.rs',TP+'subcommands/gs_graphics/*.rs'],
 [('bit unpacking',TP+'graphics.rs GraphicsCommand::image_from_*'),('magnification',TP+'graphics.rs scale_pixels')],['GraphicsCommand::Image'])
p('P10','Stored graphics are defined, printed and cleared as commanded',
 'A graphic defined under a key code (NV or download storage) or put into the print buffer is exactly what the corresponding print command prints; printing an undefined key prints nothing; deleting a key or all keys removes exactly those; printing the buffer empties it.',
 ['inputs','histories'],'every sequence of define/print/delete commands up to the bound with any key codes',
 W+'stored graphics appear once in one sample and are never compared.',
 [TP+'subcommands/gs_graphics/*.rs',TP+'graphics.rs',TP+'context.rs'],
 [('graphics store keyed by storage and key code',TP+'context.rs stored_graphics')],['get_graphics / apply_context'])
p('P11','UPC-E symbols encode the number per the standard',
 'A UPC-E number accepted for printing is encoded with the parity pattern, digits and check digit the standard prescribes, zero-suppressed expansion and compression are inverse to each other, and a UPC-A number with no UPC-E form is rejected rather than altered.',
 ['inputs'],'all numeric inputs of every accepted length',
 W+'only a few fixed numbers are tested.',
 [TP+'utils/barcodes/upce.rs'],[('expansion/compression',TP+'utils/barcodes/upce.rs')],['UPCE::new/encode'])
p('P12','Barcode commands yield a faithful symbol or an error',
 'For every implemented barcode system (UPC-A, EAN-13, EAN-8, CODE39, ITF, Codabar, CODE93, CODE128) and payload the barcode command yields exactly one symbol or reported error: a payload the symbology can encode yields the modules its standard prescribes, including the check digits, with the human readable text of the data as given (CODE128: without the code set selections); any other payload yields an error. UPC-A and EAN-13 calculate their check digit and ignore a supplied one; EAN-8 rejects a wrong one.',
 ['inputs'],'every system byte and payload within the length bound',
 W+'samples use one valid payload per system.',
 [TP+'commands/barcode.rs'],[('symbology selection and data preparation',TP+'commands/barcode.rs')],['get_graphics of GS k'])
p('P13','Human-readable .thermal source parses totally and predictably',
 'Parsing any .thermal text returns normally; every quoted string, decimal, hex and named constant contributes exactly its bytes in order, comments and whitespace contribute nothing.',
 ['inputs'],'every ASCII/UTF-8 text up to the bound',
 W+'a dozen fixed lines are tested.',
 [TP+'thermal_file.rs',TP+'constants.rs'],[('tokenizer',TP+'thermal_file.rs parse_tokens')],['thermal_file::parse_str'])
p('P14','Converting a print job to .thermal and back is lossless',
 'Converting any ESC/POS byte stream to .thermal source and parsing that source again gives back the same bytes.',
 ['inputs'],'every byte stream up to the bound',
 W+'the conversion is only exercised on sample files without comparing all bytes for all content.',
 [TP+'thermal_file.rs'],[('writer and tokenizer',TP+'thermal_file.rs cmd_to_thermal / parse_str')],['thermal_file'])
p('P15','Rendering is total and yields one well-formed page per print',
 'Rendering any byte stream returns normally with exactly one output per print job; the image output has the declared width, its byte count is exactly 3*width*height, and rendering the same bytes again gives the same output. The picture shows every image, rectangle and character where layout and page mode placed it, and blank paper elsewhere.',
 ['inputs'],'every byte stream within the bounds',
 W+'malformed and degenerate (zero-size, overflowing) inputs are not sampled.',
 [TR+'renderer.rs',TR+'image_renderer/*',TR+'html_renderer/*'],[('command loop',TR+'renderer.rs Renderer::render')],['ImageRenderer::render','HtmlRenderer::render'])
p('P16','Text layout prints every character once, in order, inside the paper',
 'Every printable character of the text is handed to the output exactly once and in order, each line fits inside the printable width and is offset as the justification demands, later lines are strictly lower than earlier ones, and spans of a line do not overlap.',
 ['inputs','histories'],'every text within the bound, with any widths, fonts, justification, tabs and line feeds',
 W+'layout positions are never compared.',
 [TR+'renderer.rs',TP+'text.rs'],[('word wrap',TR+'renderer.rs Renderer::process_text'),('word breaking',TP+'text.rs')],['OutputRenderer::render_text calls'])
p('P17','Output follows the order of the commands',
 'Text received before a graphic, feed, cut or setting command is laid out before it and with the settings in force when the text was received; images printed within a line stand beside what is on it, on the next line when they do not fit, and later lines are below them; nothing pending is lost at the end of the print.',
 ['inputs','histories'],'every sequence of text, graphics and control commands up to the bound',
 W+'ordering is invisible to tests that compare nothing.',
 [TR+'renderer.rs'],[('span buffer flush',TR+'renderer.rs process_command')],['sequence of OutputRenderer calls'])
p('P18','Page mode geometry is consistent',
 'For every print area and direction sequence the page always contains the print area, the rotations reported while changing direction compose to the rotation of the final direction, and positions set in page mode land inside the area as the direction prescribes.',
 ['inputs','histories'],'every area and direction sequence within the bound',
 W+'one page-mode sample, never compared.',
 [TP+'context.rs',TP+'commands/page_mode_*.rs'],[('area/direction mapping',TP+'context.rs PageModeContext')],['PageModeContext','OutputRenderer::page_area_changed'])
p('P19','Canvas operations keep what was drawn',
 'Drawing on, growing, cropping, rotating and merging image canvases preserves every already drawn pixel at its documented place, changes only the pixels addressed, and never panics.',
 ['inputs'],'every canvas and draw size/position within the bound',
 W+'rendered bitmaps are never compared.',
 [TR+'image_renderer/thermal_image.rs'],[('pixel buffer',TR+'image_renderer/thermal_image.rs ThermalImage')],['ThermalImage'])
p('P20','Printed text cannot inject markup into HTML output',
 'Every character of printed text appears in HTML output as text: no input text can open, close or alter an element or attribute.',
 ['inputs'],'every text within the bound',
 W+'samples contain no markup characters.',
 [TR+'html_renderer/*.rs'],[('text emission',TR+'html_renderer/thermal_html.rs')],['HtmlRenderer::render'])
p('P21','QR codes print what was stored',
 'A QR code store followed by its print yields the symbol of exactly the stored bytes, at the model, error correction level and module size commanded, whenever these bytes fit: drawn on a square grid at the justified position, with the paper advanced below it, every time it is printed. Otherwise an error is reported, and never another symbol, such as one stored before, is printed.',
 ['inputs','histories'],'every stored data, settings and store/print history within the bound',
 W+'one sample prints one code of each kind and its content is never read back.',
 [TP+'commands/code_2d.rs',TP+'subcommands/gs_code2d/*.rs',TP+'graphics.rs'],[('symbol assembly',TP+'commands/code_2d.rs'),('symbol drawing',TR+'renderer.rs')],['graphics drawn for GS ( k'])
p('P22','HTML output shows everything where it was printed',
 'The HTML output shows every line of text, image and barcode in a row of the height, at the column, width, magnification and style layout gave it, images and barcodes with exactly their dots and bars; rows follow each other at the heights of the print unless what is above is in the way, and the document ends where the paper ends.',
 ['inputs','histories'],'every stream of text, images and settings within the bound',
 W+'the HTML output is written by tests but never compared.',
 [TR+'html_renderer/*.rs'],[('rows and spans',TR+'html_renderer/thermal_html.rs'),('conversion of layout to elements',TR+'html_renderer/mod.rs')],['HtmlRenderer::render'])
p('P23','Every problem is reported once and changes nothing else',
 'Each unknown command, each graphic or symbol that cannot be made and each thing that falls outside of its page yields exactly one error, in order, with the print it belongs to (an unknown command with its bytes); a stream without these yields none; and everything else is output as if the failing command were not there. This holds for picture and HTML output.',
 ['inputs','histories'],'every stream of commands, failing commands and prints within the bound',
 W+'errors are printed by the samples but never counted.',
 [TR+'renderer.rs',TR+'image_renderer/mod.rs',TR+'html_renderer/mod.rs'],[('error collection',TR+'renderer.rs log_error'),('errors of the output',TR+'image_renderer/mod.rs end_render')],['RenderOutput::errors'])
p('P24','Pictures show every character in its style',
 'In the picture every character of a line of text shows its own glyph in its cell: in the face (bold, italic) and at the size its font and magnification give it, in its colour on its ground, upside down where commanded, underlined below and struck through within the glyph with lines as thick as commanded over the whole width; glyphs of different fonts and magnifications in a line stand on one baseline, and nothing else is in the cells. On a page the same text is shown turned as the print direction demands, and stays as it is when more is printed in another direction.',
 ['inputs','histories'],'every character, style, font and magnification and their combinations within the bound',
 W+'the pictures of the samples are never compared.',
 [TR+'image_renderer/*.rs',TP+'text.rs'],[('glyphs, lines, flips',TR+'image_renderer/thermal_image.rs render_spans'),('styles of a span',TP+'text.rs TextSpan::new')],['ImageRenderer::render'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
